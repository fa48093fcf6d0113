//! Oriented cubes against the physical cube: rotations, slices, wide turns of any depth.
use crate::geo::{turn, AnyMove};
use crate::inverse::{any_extended, any_orientation};
use crate::sta;
use crate::view::View;
use barbarosa::cube_n::moves::rotation::{AxisRotation, Rotatable};
use barbarosa::cube_n::moves::{ExtendedAxisMove, QuarterAxisMove};
use barbarosa::cube_n::space::Face;
use barbarosa::cube_n::*;
use barbarosa::generic::{Cube, Movable};

fn ori<C: CubeN + Movable<W> + 'static, W: AnyMove + View>(solved: fn() -> C, n: usize)
where
    Orientable<C>: Movable<ExtendedAxisMove> + PartialEq,
{
    turn::<C, W>(solved);
    let m = any_extended(n + 1);
    sta::out("em", &m.view());
    // chosen before the pieces: the diagrams then branch on the orientation first
    let o = any_orientation();
    let mut base = solved();
    sta::havoc(&mut base, "o");
    sta::pieces("obefore", &base);
    let mut c = Orientable::new(base);
    c.orientation = o;
    sta::out("r", c.orientation.r_face());
    sta::out("u", &c.orientation.u_face());
    c.apply(&m);
    sta::out("r'", c.orientation.r_face());
    sta::out("u'", &c.orientation.u_face());
    sta::pieces("oafter", &c.base_cube);
}
pub fn entry_ori2() {
    ori::<Cube2, AxisMove>(Cube2::new_solved, 2);
}
pub fn entry_ori3() {
    ori::<Cube3, AxisMove>(Cube3::new_solved, 3);
}
pub fn entry_ori4() {
    ori::<Cube4, WideAxisMove<1>>(Cube4::new_solved, 4);
}
pub fn entry_ori5() {
    ori::<Cube5, WideAxisMove<1>>(Cube5::new_solved, 5);
}
pub fn entry_ori6() {
    ori::<Cube6, WideAxisMove<2>>(Cube6::new_solved, 6);
}
pub fn entry_ori7() {
    ori::<Cube7, WideAxisMove<2>>(Cube7::new_solved, 7);
}

/// orientations on their own
pub fn entry_orientation() {
    let (r, u): (Face, Face) = (sta::any("r"), sta::any("u"));
    sta::out("r", &r);
    sta::out("u", &u);
    match Orientation::try_from([r.clone(), u.clone()]) {
        Err(_) => sta::out("ok", &0usize),
        Ok(o) => {
            sta::out("ok", &1usize);
            sta::check(*o.r_face() == r, "r-face");
            sta::check(o.u_face() == u, "u-face");
            let mut d = Orientation::default();
            let mut n = 0;
            for rot in o.rotations() {
                d.rotate(&rot);
                n += 1;
            }
            sta::check(d == o, "rotations-lead-to-it");
            sta::check(n <= 2, "rotations-few");
            let rot = AxisRotation::new(sta::any("axis"), sta::any("amount"));
            sta::out("rot", &rot);
            let o2 = o.clone().rotated(&rot);
            sta::out("r'", o2.r_face());
            sta::out("u'", &o2.u_face());
        }
    }
}
pub fn entry_default_orientation() {
    let o = Orientation::default();
    sta::check(*o.r_face() == Face::R, "default-r");
    sta::check(o.u_face() == Face::U, "default-u");
    sta::check(o.rotations().count() == 0, "default-rotations");
    let c = Orientable::new(Cube3::new_solved());
    sta::check(c.orientation == o, "new-orientation");
    sta::check(c == Orientable::<Cube3>::new_solved(), "solved");
    sta::check(c.is_solved(), "is-solved");
    sta::check(Orientable::from(Cube3::new_solved()) == c, "from");
}
/// moves of other types on an oriented cube are the extended moves of the same name
pub fn entry_plain() {
    crate::geo::fix::<Cube5, WideAxisMove<1>>(Cube5::new_solved);
    let mut base = Cube5::new_solved();
    sta::havoc(&mut base, "s");
    let mut c = Orientable::new(base);
    c.orientation = any_orientation();
    let m: AxisMove = sta::any("m");
    let mut e = c.clone();
    e.apply(&ExtendedAxisMove::from(m.clone()));
    let mut a = c.clone();
    a.apply(&m);
    sta::check(a.orientation == e.orientation, "axis-orientation");
    sta::pieces("axis", &a.base_cube);
    sta::pieces("axis'", &e.base_cube);
    let q: QuarterAxisMove = sta::any("q");
    let mut a = c.clone();
    a.apply(&q);
    let mut e = c.clone();
    e.apply(&ExtendedAxisMove::from(AxisMove::from(&q)));
    sta::check(a.orientation == e.orientation, "quarter-orientation");
    sta::pieces("quarter", &a.base_cube);
    sta::pieces("quarter'", &e.base_cube);
}
