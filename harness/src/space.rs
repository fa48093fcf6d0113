//! Axes, directions, faces, vectors, amounts, and what rotations do to them.
use crate::inverse::Tok;
use crate::sta;
use barbarosa::cube_n::moves::rotation::{rotate_vec2, AxisRotation, Rotatable};
use barbarosa::cube_n::moves::Amount;
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::*;
use barbarosa::generic::utils::slice_coords;
use nalgebra::{Vector2, Vector3};
type Vec3 = Vector3<Direction>;
type Vec2 = Vector2<Direction>;

fn any_face(n: &'static str) -> Face {
    sta::any(n)
}
pub fn any_vec3() -> Vec3 {
    Vector3::new(sta::any("x"), sta::any("y"), sta::any("z"))
}
pub fn any_vec2() -> Vec2 {
    Vector2::new(sta::any("x"), sta::any("y"))
}
pub fn any_rotation() -> AxisRotation {
    AxisRotation::new(sta::any("around"), sta::any("by"))
}
pub fn entry_axis() {
    let a: Axis = sta::any("a");
    sta::out("a", &a);
    sta::out("next", &a.next());
    sta::out("prev", &a.prev());
    sta::out("basis", &Axis::basis(&a));
    let v: Vector3<i8> = Vector3::from(&a);
    sta::out("vector", &[v.x, v.y, v.z]);
    let w: Vector3<i8> = Vector3::new(10, 20, 30);
    sta::out("component", &w[a]);
    let mut w2 = w;
    w2[a] = 40;
    sta::out("changed", &[w2.x, w2.y, w2.z]);
    let s = slice_coords(w, a);
    sta::out("slice", &[s.x, s.y]);
    let m = a.map_on_slice(w, |[x, y]| Vector2::new(*x + 1, *y + 2));
    sta::out("mapped", &[m.x, m.y, m.z]);
    let h: Direction = sta::any("h");
    sta::out("h", &h);
    sta::out("to_hand", &a.next_with_handedness(h));
    // the elements of a mapped vector are not touched otherwise
    let t: Vector3<Tok> = Vector3::new(Tok(11), Tok(12), Tok(13));
    let t2 = a.map_on_slice(t, |[x, y]| Vector2::new(y.clone(), x.clone()));
    sta::out("swapped", &[t2.x.0, t2.y.0, t2.z.0]);
}
pub fn entry_axis2() {
    let (a, b): (Axis, Axis) = (sta::any("a"), sta::any("b"));
    sta::out("a", &a);
    sta::out("b", &b);
    sta::out("offset", &a.offset(&b));
    sta::out("other", &Axis::other(&a, &b));
    sta::out("hand", &a.get_handedness(&b).ok());
}
pub fn entry_direction() {
    let (d, e): (Direction, Direction) = (sta::any("d"), sta::any("e"));
    sta::out("d", &d);
    sta::out("e", &e);
    sta::out("scalar", &d.scalar());
    sta::out("i8", &i8::from(&d));
    sta::out("neg", &-d);
    sta::out("same", &(d == e));
    sta::out("amount", &Amount::from(d));
}
pub fn entry_amount() {
    let (a, b): (Amount, Amount) = (sta::any("a"), sta::any("b"));
    let d: Direction = sta::any("d");
    sta::out("a", &a);
    sta::out("b", &b);
    sta::out("d", &d);
    sta::out("mul", &(a * d));
    sta::out("add", &(a + b));
}
pub fn entry_face() {
    let f = any_face("f");
    sta::out("f", &f);
    sta::out("opposite", &f.opposite());
    let c = f.coords();
    sta::out("coords", &[c.x, c.y, c.z]);
    let v: Vector3<i8> = Vector3::from(&f);
    sta::out("vector", &[v.x, v.y, v.z]);
    sta::out("index", &f.index());
    let a: Axis = sta::any("a");
    sta::out("a", &a);
    sta::out("next", &f.clone().next_around(&a));
    sta::out("prev", &f.clone().prev_around(&a));
    sta::out("new", &Face::new(f.axis, f.direction));
    sta::out("named", &[Face::R, Face::L, Face::U, Face::D, Face::F, Face::B]);
}
pub fn entry_face_text() {
    let f = any_face("f");
    sta::out("f", &f);
    let s = f.to_string();
    sta::out("text", s.as_str());
}
pub fn entry_face2() {
    let (f, g) = (any_face("f"), any_face("g"));
    sta::out("f", &f);
    sta::out("g", &g);
    sta::out("cross", &f.cross(&g));
    sta::out("same", &(f == g));
}
pub fn entry_contains() {
    let f = any_face("f");
    sta::out("f", &f);
    let v = any_vec3();
    sta::out("v", &[v.x, v.y, v.z]);
    sta::out("vector", &f.contains_vector(&v));
    let (n, s) = (sta::any("normal"), any_vec2());
    sta::out("normal", &n);
    sta::out("s", &[s.x, s.y]);
    sta::out("edge", &f.contains_edge(&Edge::new(n, s, sta::any("oriented"))));
}
pub fn entry_rotated() {
    let r = any_rotation();
    sta::out("axis", &r.axis);
    sta::out("amount", &r.amount);
    let f = any_face("f");
    sta::out("f", &f);
    sta::out("face", &f.clone().rotated(&r));
    sta::out("of_axis", &f.axis.rotated(&r));
    let mut g = f.clone();
    g.rotate(&r);
    sta::check(g == f.rotated(&r), "rotate-in-place");
    let v = any_vec3();
    sta::out("v", &[v.x, v.y, v.z]);
    let w = v.rotated(&r);
    sta::out("vector", &[w.x, w.y, w.z]);
    let m = AxisMove::new(sta::any("g"), sta::any("k"));
    sta::out("m", &m);
    sta::out("move", &m.clone().rotated(&r));
    sta::out("of_move", &AxisRotation::from(&m));
    let n: Axis = sta::any("normal");
    sta::out("normal", &n);
    sta::out("inverse", &r.inverse());
}
pub fn entry_rotate_vec2() {
    let a: Amount = sta::any("a");
    sta::out("a", &a);
    let v = any_vec2();
    sta::out("v", &[v.x, v.y]);
    let w = rotate_vec2(&a, &v);
    sta::out("w", &[w.x, w.y]);
}
