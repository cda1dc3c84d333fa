pub use enum_iterator_derive_stub::Sequence;
pub trait Sequence: Sized {
    const CARDINALITY: usize;
    fn next(&self) -> Option<Self>;
    fn previous(&self) -> Option<Self>;
    fn first() -> Option<Self>;
    fn last() -> Option<Self>;
}
pub fn all<T: Sequence>() -> impl Iterator<Item = T> {
    let mut n = T::first();
    std::iter::from_fn(move || {
        let c = n.take()?;
        n = c.next();
        Some(c)
    })
}
pub fn cardinality<T: Sequence>() -> usize {
    T::CARDINALITY
}
pub fn first<T: Sequence>() -> Option<T> {
    T::first()
}
pub fn last<T: Sequence>() -> Option<T> {
    T::last()
}
pub fn next<T: Sequence>(t: &T) -> Option<T> {
    t.next()
}
