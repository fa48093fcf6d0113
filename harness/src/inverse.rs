//! A move followed by its inverse, an alg followed by its reverse.
use crate::geo::{fix, AnyMove};
use crate::sta;
use barbarosa::cube_n::moves::rotation::AxisRotation;
use barbarosa::cube_n::moves::{Amount, ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::space::{Axis, Face};
use barbarosa::cube_n::*;
use barbarosa::generic::{Alg, Cube, Movable, Move};

impl AnyMove for QuarterAxisMove {
    fn any_move() -> Self {
        sta::any("m")
    }
}
impl AnyMove for NonRedundantAxisMove {
    fn any_move() -> Self {
        if sta::pick("two", 2) == 0 {
            NonRedundantAxisMove::Single(sta::any("m"))
        } else {
            NonRedundantAxisMove::Double {
                axis: sta::any("axis"),
                amount_positive: sta::any("amount+"),
                amount_negative: sta::any("amount-"),
            }
        }
    }
}
/// every extended move, wide ones up to depth `d - 1` and at the largest depth there is
pub fn any_extended(d: usize) -> ExtendedAxisMove {
    match sta::pick("kind", 4) {
        0 => ExtendedAxisMove::Regular(sta::any("m")),
        1 => ExtendedAxisMove::Rotation(AxisRotation::new(sta::any("axis"), sta::any("amount"))),
        2 => {
            let m: AxisMove = sta::any("wide");
            let depths = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
            let k = sta::pick("depth", d + 1);
            let depth = if k == d { u32::MAX } else { depths[k] };
            ExtendedAxisMove::Wide(WideAxisMove::new(m.face, m.amount, depth).unwrap())
        }
        _ => ExtendedAxisMove::Slice {
            rot: AxisRotation::new(sta::any("axis"), sta::any("amount")),
            wide: sta::any("inner"),
        },
    }
}
pub fn any_orientation() -> Orientation {
    let r: Face = sta::any("r");
    let u: Face = sta::any("u");
    let o = Orientation::try_from([r, u]);
    sta::assume(o.is_ok());
    o.unwrap()
}

fn undo<C: Cube + Movable<M> + 'static, M: Move + PartialEq + AnyMove>(solved: fn() -> C) {
    let m = M::any_move();
    sta::check(m.inverse().inverse() == m, "inverse-of-inverse");
    let mut c = solved();
    sta::havoc(&mut c, "s");
    sta::pieces("before", &c);
    let mut a = c.clone();
    a.apply(&m);
    a.apply(&m.inverse());
    sta::pieces("back", &a);
    let mut b = c.moved(&m.inverse());
    b.apply(&m);
    sta::pieces("forth", &b);
}
macro_rules! undo {
    ($e:ident, $c:ident, $m:ty, $w:ty) => {
        pub fn $e() {
            fix::<$c, $w>($c::new_solved);
            undo::<$c, $m>($c::new_solved);
        }
    };
}
undo!(entry_undo_axis2, Cube2, AxisMove, AxisMove);
undo!(entry_undo_axis3, Cube3, AxisMove, AxisMove);
undo!(entry_undo_axis4, Cube4, AxisMove, WideAxisMove<1>);
undo!(entry_undo_axis5, Cube5, AxisMove, WideAxisMove<1>);
undo!(entry_undo_axis6, Cube6, AxisMove, WideAxisMove<2>);
undo!(entry_undo_axis7, Cube7, AxisMove, WideAxisMove<2>);
undo!(entry_undo_wide2, Cube2, WideAxisMove<0>, AxisMove);
undo!(entry_undo_wide3, Cube3, WideAxisMove<0>, AxisMove);
undo!(entry_undo_wide4, Cube4, WideAxisMove<1>, WideAxisMove<1>);
undo!(entry_undo_wide5, Cube5, WideAxisMove<1>, WideAxisMove<1>);
undo!(entry_undo_wide6, Cube6, WideAxisMove<2>, WideAxisMove<2>);
undo!(entry_undo_wide7, Cube7, WideAxisMove<2>, WideAxisMove<2>);
undo!(entry_undo_quarter2, Cube2, QuarterAxisMove, AxisMove);
undo!(entry_undo_quarter3, Cube3, QuarterAxisMove, AxisMove);
undo!(entry_undo_quarter5, Cube5, QuarterAxisMove, WideAxisMove<1>);
undo!(entry_undo_nr2, Cube2, NonRedundantAxisMove, AxisMove);
undo!(entry_undo_nr3, Cube3, NonRedundantAxisMove, AxisMove);
undo!(entry_undo_nr4, Cube4, NonRedundantAxisMove, WideAxisMove<1>);

fn undo_ext<C: CubeN + Movable<W> + 'static, W: AnyMove>(solved: fn() -> C, n: usize)
where
    Orientable<C>: Movable<ExtendedAxisMove> + PartialEq,
{
    fix::<C, W>(solved);
    let m = any_extended(n + 1);
    sta::check(m.inverse().inverse() == m, "inverse-of-inverse");
    let mut base = solved();
    sta::havoc(&mut base, "s");
    sta::pieces("before", &base);
    let mut c = Orientable::new(base);
    c.orientation = any_orientation();
    let o = c.orientation.clone();
    c.apply(&m);
    c.apply(&m.inverse());
    sta::check(c.orientation == o, "orientation");
    sta::pieces("back", &c.base_cube);
}
pub fn entry_undo_ext2() {
    undo_ext::<Cube2, AxisMove>(Cube2::new_solved, 2);
}
pub fn entry_undo_ext3() {
    undo_ext::<Cube3, AxisMove>(Cube3::new_solved, 3);
}
pub fn entry_undo_ext4() {
    undo_ext::<Cube4, WideAxisMove<1>>(Cube4::new_solved, 4);
}
pub fn entry_undo_ext5() {
    undo_ext::<Cube5, WideAxisMove<1>>(Cube5::new_solved, 5);
}
pub fn entry_undo_ext6() {
    undo_ext::<Cube6, WideAxisMove<2>>(Cube6::new_solved, 6);
}
pub fn entry_undo_ext7() {
    undo_ext::<Cube7, WideAxisMove<2>>(Cube7::new_solved, 7);
}

/// the elementary algebra of amounts and rotations the inverses rest on
pub fn entry_undo_rotation() {
    use barbarosa::cube_n::moves::rotation::Rotatable;
    let axis: Axis = sta::any("axis");
    let amount: Amount = sta::any("amount");
    let r = AxisRotation::new(axis, amount);
    sta::check(r.inverse().inverse() == r, "rotation-inverse-of-inverse");
    let f: Face = sta::any("face");
    sta::check(f.clone().rotated(&r).rotated(&r.inverse()) == f, "rotation-of-face");
    let o = any_orientation();
    let mut p = o.clone();
    p.rotate(&r);
    p.rotate(&r.inverse());
    sta::check(p == o, "rotation-of-orientation");
    let m: AxisMove = sta::any("m");
    sta::check(m.clone().rotated(&r).rotated(&r.inverse()) == m, "rotation-of-move");
}

/// a token with an inverse of its own
#[derive(Clone, PartialEq, Debug)]
pub struct Tok(pub usize);
impl Move for Tok {
    fn inverse(&self) -> Self {
        Tok(self.0 ^ 64)
    }
}
/// reversed() of algs of arbitrary moves, of every length up to a bound
fn reversed<const L: usize>() {
    let mut v = Vec::new();
    for _ in 0..L {
        v.push(Tok(sta::pick("tok", 6)));
    }
    let a = Alg::<Tok>::new(v.clone());
    let r = a.reversed();
    sta::check(a.moves == v, "reversed-leaves-alg");
    sta::check(r.moves.len() == L, "reversed-length");
    for i in 0..L {
        sta::check(r.moves[i] == v[L - 1 - i].inverse(), "reversed-element");
    }
    sta::alive("end");
}
pub fn entry_reversed0() {
    reversed::<0>();
}
pub fn entry_reversed1() {
    reversed::<1>();
}
pub fn entry_reversed2() {
    reversed::<2>();
}
pub fn entry_reversed3() {
    reversed::<3>();
}
pub fn entry_reversed4() {
    reversed::<4>();
}
pub fn entry_reversed5() {
    reversed::<5>();
}
pub fn entry_reversed6() {
    reversed::<6>();
}
pub fn entry_reversed9() {
    reversed::<9>();
}
pub fn entry_reversed17() {
    reversed::<17>();
}
pub fn entry_reversed40() {
    reversed::<40>();
}
pub fn entry_reversed150() {
    reversed::<150>();
}
/// an alg and its reverse, on a cube
pub fn entry_reversed_cube() {
    fix::<Cube3, AxisMove>(Cube3::new_solved);
    let (a, b): (AxisMove, AxisMove) = (sta::any("m1"), sta::any("m2"));
    let alg = Alg::<AxisMove>::new(vec![a, b]);
    let mut c = Cube3::new_solved();
    sta::havoc(&mut c, "s");
    sta::pieces("before", &c);
    c.apply(&alg);
    c.apply(&alg.reversed());
    sta::pieces("back", &c);
}
