#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "socks") } }
impl std::error::Error for Error {}
pub mod tcp {
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
    #[derive(Debug)]
    pub struct Socks5Stream<S>(S);
    impl<S> std::ops::Deref for Socks5Stream<S> { type Target = S; fn deref(&self) -> &S { &self.0 } }
    impl<S: AsyncRead + AsyncWrite + Unpin> Socks5Stream<S> {
        pub async fn connect_with_socket(_s: S, _t: std::net::SocketAddr) -> Result<Socks5Stream<S>, super::Error> { unimplemented!() }
    }
    impl<T: AsyncRead + AsyncWrite + Unpin> AsyncRead for Socks5Stream<T> { fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> { unimplemented!() } }
    impl<T: AsyncRead + AsyncWrite + Unpin> AsyncWrite for Socks5Stream<T> {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<std::io::Result<usize>> { unimplemented!() }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { unimplemented!() }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { unimplemented!() }
    }
}
