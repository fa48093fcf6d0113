//! Analysis intrinsics: given meaning by the abstract interpreter, never executed.
pub fn any<T>(_name: &'static str) -> T {
    unimplemented!()
}
pub fn pick(_name: &'static str, _n: usize) -> usize {
    unimplemented!()
}
pub fn interval(_lo: usize, _hi: usize) -> usize {
    unimplemented!()
}
pub fn opaque<T>() -> T {
    unimplemented!()
}
pub fn uninterp<A, B>(_name: &'static str, _a: &A) -> B {
    unimplemented!()
}
pub fn assume(_b: bool) {
    unimplemented!()
}
pub fn check(_b: bool, _id: &'static str) {
    unimplemented!()
}
pub fn out<T: ?Sized>(_tag: &'static str, _v: &T) {
    unimplemented!()
}
pub fn alive(_tag: &'static str) {
    unimplemented!()
}
pub fn reset<C>(_c: &C) {
    unimplemented!()
}
pub fn learn<C>(_c: &C) -> bool {
    unimplemented!()
}
pub fn havoc<C>(_c: &mut C, _label: &'static str) {
    unimplemented!()
}
pub fn pieces<C>(_tag: &'static str, _c: &C) {
    unimplemented!()
}
/// of the random draws from here on only `n` from the `lo`th are arbitrary, the others are fixed in a way that depends on `base`
pub fn window(_lo: usize, _n: usize, _base: usize) {
    unimplemented!()
}
pub fn trace(_on: bool) {
    unimplemented!()
}
