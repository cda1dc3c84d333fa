#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "csv") } }
impl std::error::Error for Error {}
pub struct ReaderBuilder(());
pub struct Reader<R>(R);
pub struct StringRecord(Vec<String>);
pub struct StringRecordsIter<'r, R>(&'r mut Reader<R>);
impl StringRecord { pub fn len(&self) -> usize { self.0.len() } pub fn is_empty(&self) -> bool { self.0.is_empty() } pub fn get(&self, i: usize) -> Option<&str> { self.0.get(i).map(|s| s.as_str()) } }
impl ReaderBuilder { pub fn new() -> Self { Self(()) } pub fn has_headers(&mut self, _: bool) -> &mut Self { self } pub fn flexible(&mut self, _: bool) -> &mut Self { self } pub fn from_reader<R: std::io::Read>(&self, r: R) -> Reader<R> { Reader(r) } }
impl<R: std::io::Read> Reader<R> { pub fn records(&mut self) -> StringRecordsIter<'_, R> { StringRecordsIter(self) } }
impl<R: std::io::Read> Iterator for StringRecordsIter<'_, R> { type Item = Result<StringRecord, Error>; fn next(&mut self) -> Option<Self::Item> { let _ = &self.0 .0; unimplemented!() } }
