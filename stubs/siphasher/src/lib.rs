pub mod sip {
    #[allow(deprecated)]
    pub struct SipHasher(std::hash::SipHasher);
    #[allow(deprecated)]
    impl SipHasher { pub fn new_with_keys(a: u64, b: u64) -> Self { Self(std::hash::SipHasher::new_with_keys(a, b)) } }
    #[allow(deprecated)]
    impl std::hash::Hasher for SipHasher { fn finish(&self) -> u64 { self.0.finish() } fn write(&mut self, b: &[u8]) { self.0.write(b) } }
}
