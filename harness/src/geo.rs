//! Turn geometry of every cube: reachable piece states and their transitions.
use crate::sta;
use crate::view::View;
use barbarosa::cube_n::*;
use barbarosa::generic::{Cube, Movable};

/// an arbitrary value of a move type, over the public constructors
pub trait AnyMove: Sized {
    fn any_move() -> Self;
}
impl AnyMove for AxisMove {
    fn any_move() -> Self {
        sta::any("m")
    }
}
impl<const N: u32> AnyMove for WideAxisMove<N> {
    fn any_move() -> Self {
        let m: AxisMove = sta::any("m");
        let d = sta::pick("depth", N as usize + 1) as u32;
        WideAxisMove::<N>::new(m.face, m.amount, d).unwrap()
    }
}

/// reachable states of every piece of a cube, under every move the cube accepts
pub(crate) fn fix<C: Cube + Movable<M> + 'static, M: AnyMove>(solved: fn() -> C) {
    sta::learn(&solved());
    loop {
        let m = M::any_move();
        let mut c = solved();
        sta::havoc(&mut c, "f");
        c.apply(&m);
        if !sta::learn(&c) {
            break;
        }
    }
}

/// one arbitrary turn from arbitrary states of the pieces, and the verdict of `is_solved` on them
pub(crate) fn turn<C: Cube + Movable<M> + Clone + 'static, M: AnyMove + View>(solved: fn() -> C) {
    fix::<C, M>(solved);
    sta::pieces("home", &solved());
    let m = M::any_move();
    sta::out("m", &m.view());
    let mut c = solved();
    sta::havoc(&mut c, "s");
    sta::pieces("before", &c);
    sta::out("solved", &c.is_solved());
    c.apply(&m);
    sta::pieces("after", &c);
}

pub fn entry_geo2() {
    turn::<Cube2, AxisMove>(Cube2::new_solved);
}
pub fn entry_geo3() {
    turn::<Cube3, AxisMove>(Cube3::new_solved);
}
pub fn entry_geo4() {
    turn::<Cube4, WideAxisMove<1>>(Cube4::new_solved);
}
pub fn entry_geo5() {
    turn::<Cube5, WideAxisMove<1>>(Cube5::new_solved);
}
pub fn entry_geo6() {
    turn::<Cube6, WideAxisMove<2>>(Cube6::new_solved);
}
pub fn entry_geo7() {
    turn::<Cube7, WideAxisMove<2>>(Cube7::new_solved);
}

/// the same turn spelled as two different move types
fn same<C: Cube + Movable<A> + Movable<B>, A: 'static, B>(tag: &'static str, tag2: &'static str, solved: fn() -> C, a: &A, b: &B) {
    let mut x = solved();
    sta::havoc(&mut x, "s");
    let mut y = x.clone();
    <C as Movable<A>>::apply(&mut x, a);
    <C as Movable<B>>::apply(&mut y, b);
    sta::pieces(tag, &x);
    sta::pieces(tag2, &y);
}
pub(crate) fn wide<const N: u32>(m: &AxisMove, d: u32) -> WideAxisMove<N> {
    WideAxisMove::<N>::new(m.face.clone(), m.amount, d).unwrap()
}
/// plain face turns against wide turns of depth 0
fn outer<C: Cube + Movable<AxisMove> + Movable<WideAxisMove<0>> + Movable<WideAxisMove<N>> + 'static, const N: u32>(solved: fn() -> C) {
    fix::<C, WideAxisMove<N>>(solved);
    let m: AxisMove = sta::any("m");
    sta::out("m", &m);
    same::<C, AxisMove, WideAxisMove<N>>("axis", "axis'", solved, &m, &wide::<N>(&m, 0));
    same::<C, WideAxisMove<0>, WideAxisMove<N>>("wide0", "wide0'", solved, &wide::<0>(&m, 0), &wide::<N>(&m, 0));
}
pub fn entry_outer2() {
    fix::<Cube2, AxisMove>(Cube2::new_solved);
    let m: AxisMove = sta::any("m");
    sta::out("m", &m);
    same::<Cube2, WideAxisMove<0>, AxisMove>("wide0", "wide0'", Cube2::new_solved, &wide::<0>(&m, 0), &m);
}
pub fn entry_outer3() {
    fix::<Cube3, AxisMove>(Cube3::new_solved);
    let m: AxisMove = sta::any("m");
    sta::out("m", &m);
    same::<Cube3, WideAxisMove<0>, AxisMove>("wide0", "wide0'", Cube3::new_solved, &wide::<0>(&m, 0), &m);
}
pub fn entry_outer4() {
    outer::<Cube4, 1>(Cube4::new_solved);
}
pub fn entry_outer5() {
    outer::<Cube5, 1>(Cube5::new_solved);
}
pub fn entry_outer6() {
    outer::<Cube6, 2>(Cube6::new_solved);
    let m: AxisMove = sta::any("n");
    let d = sta::pick("depth", 2) as u32;
    same::<Cube6, WideAxisMove<1>, WideAxisMove<2>>("wide1", "wide1'", Cube6::new_solved, &wide::<1>(&m, d), &wide::<2>(&m, d));
}
pub fn entry_outer7() {
    outer::<Cube7, 2>(Cube7::new_solved);
    let m: AxisMove = sta::any("n");
    let d = sta::pick("depth", 2) as u32;
    same::<Cube7, WideAxisMove<1>, WideAxisMove<2>>("wide1", "wide1'", Cube7::new_solved, &wide::<1>(&m, d), &wide::<2>(&m, d));
}
