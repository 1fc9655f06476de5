//! Stand-in for the enum-iterator crate: field-less enums only.
pub use enum_iterator_derive::Sequence;
pub trait Sequence: Sized + Clone {
    const CARDINALITY: usize;
    fn next(&self) -> Option<Self>;
    fn previous(&self) -> Option<Self>;
    fn first() -> Option<Self>;
    fn last() -> Option<Self>;
}
pub struct All<T>(Option<T>);
impl<T: Sequence> Iterator for All<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let r = self.0.take();
        if let Some(x) = &r {
            self.0 = x.next();
        }
        r
    }
}
pub fn all<T: Sequence>() -> All<T> {
    All(T::first())
}
pub fn first<T: Sequence>() -> Option<T> {
    T::first()
}
pub fn last<T: Sequence>() -> Option<T> {
    T::last()
}
pub fn next<T: Sequence>(x: &T) -> Option<T> {
    x.next()
}
pub fn previous<T: Sequence>(x: &T) -> Option<T> {
    x.previous()
}
