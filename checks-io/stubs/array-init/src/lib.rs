//! Stand-in for the `array-init` crate: builds an array by calling a closure per index.
pub trait IsArray { type Item; fn build<F: FnMut(usize) -> Self::Item>(f: F) -> Self; }
impl<T, const N: usize> IsArray for [T; N] {
    type Item = T;
    fn build<F: FnMut(usize) -> T>(f: F) -> Self { std::array::from_fn(f) }
}
pub fn array_init<A: IsArray, F: FnMut(usize) -> A::Item>(f: F) -> A { A::build(f) }
