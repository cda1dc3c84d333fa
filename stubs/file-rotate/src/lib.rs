pub enum ContentLimit { Bytes(usize), Lines(usize), None }
pub mod compression { pub enum Compression { None, OnRotate(usize) } }
pub mod suffix { pub struct AppendCount(()); impl AppendCount { pub fn new(_: usize) -> Self { Self(()) } } }
pub struct FileRotate<S>(S);
impl<S> FileRotate<S> {
    pub fn new<P: AsRef<std::path::Path>>(_p: P, s: S, _l: ContentLimit, _c: compression::Compression, #[cfg(unix)] _m: Option<u32>) -> Self { Self(s) }
}
impl<S> std::io::Write for FileRotate<S> { fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { unimplemented!() } fn flush(&mut self) -> std::io::Result<()> { unimplemented!() } }
