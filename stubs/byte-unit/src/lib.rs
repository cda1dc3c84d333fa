#[derive(Debug, Clone, Copy)]
pub struct Byte(u64);
#[derive(Debug)]
pub struct ParseError;
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "parse error")
    }
}
impl std::error::Error for ParseError {}
impl std::fmt::Display for Byte {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::str::FromStr for Byte {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        s.parse().map(Byte).map_err(|_| ParseError)
    }
}
impl Byte {
    pub fn as_u64(&self) -> u64 {
        self.0
    }
}
