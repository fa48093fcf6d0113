//! What pieces say about themselves, and sets of pieces.
use crate::geo::fix;
use crate::random::AnyRng;
use crate::space::{any_rotation, any_vec2, any_vec3};
use crate::sta;
use barbarosa::cube_n::moves::rotation::Rotatable;
use barbarosa::cube_n::pieces::center::edge::CenterEdge;
use barbarosa::cube_n::pieces::center::wing::CenterWing;
use barbarosa::cube_n::pieces::edge::min_moves_to_solve;
use barbarosa::cube_n::pieces::{CenterCorner, Corner, Edge, Wing};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::*;
use barbarosa::generic::piece::{Coordinates, PieceSetDescriptor};
use barbarosa::generic::{Cube, Movable, Move, Piece, PieceSet};

pub fn entry_corner() {
    let mut c = Corner::new(any_vec3(), sta::any("axis"));
    sta::out("v", &[c.position.x, c.position.y, c.position.z]);
    sta::out("axis", &c.orientation_axis);
    sta::out("faces", &c.faces());
    sta::out("oriented", &c.is_oriented());
    sta::out("index", &c.orientation_index());
    let x = c.coordinates();
    sta::out("coordinates", &[x.x as i32, x.y as i32, x.z as i32]);
    let p = c.position();
    sta::out("position", &[p.x, p.y, p.z]);
    let o = Corner::oriented(c.position);
    sta::check(o.is_oriented() && o.position == c.position, "oriented-corner");
    sta::check(o.orientation_index() == 0, "oriented-index");
    let home = any_vec3();
    sta::check(c.is_solved(&home) == (c.position == home && c.is_oriented()), "corner-is-solved");
    let n = Corner::next_axis(&c.position, &c.orientation_axis);
    sta::out("next_axis", &n);
    c.twist();
    sta::out("twisted", &c.orientation_axis);
    sta::check(p == c.position, "twist-in-place");
}
pub fn entry_edge() {
    let n: Axis = sta::any("normal");
    let s = any_vec2();
    let mut e = Edge::new(n, s, sta::any("oriented"));
    sta::out("normal", &n);
    sta::out("s", &[s.x, s.y]);
    sta::out("oriented", &e.oriented);
    sta::out("faces", &e.faces());
    let x = e.coordinates();
    sta::out("coordinates", &[x.x as i32, x.y as i32, x.z as i32]);
    sta::out("orientation_face", &Edge::orientation_face(e.position()));
    sta::out("other_face", &Edge::non_orientation_face(e.position()));
    let a: Axis = sta::any("a");
    sta::out("a", &a);
    sta::out("direction", &Edge::direction_on_axis(&e.position(), a));
    sta::check(e.position() == (n, s), "edge-position");
    let f = e.clone().flipped();
    sta::check(f.position() == e.position() && f.oriented != e.oriented, "flipped-in-place");
    let was = e.oriented;
    sta::check(e.is_solved(&(n, s)) == was, "edge-is-solved");
    let home = (sta::any("n2"), any_vec2());
    sta::check(e.is_solved(&home) == (was && e.position() == home), "edge-is-solved-there");
    e.flip();
    sta::check(e == f, "flip");
    sta::check(Edge::oriented(n, s) == Edge::new(n, s, true), "oriented-edge");
}
pub fn entry_edge_faces() {
    let (f, g): (Face, Face) = (sta::any("f"), sta::any("g"));
    sta::out("f", &f);
    sta::out("g", &g);
    let p = Edge::position_from_faces([f.clone(), g.clone()]);
    let e = Edge::try_from([f.clone(), g.clone()]);
    sta::check(p.is_ok() == (f.axis != g.axis), "faces-ok");
    sta::check(p.is_ok() == e.is_ok(), "edge-ok");
    if let (Ok(p), Ok(e)) = (p, e) {
        sta::check(e.position() == p && e.oriented, "edge-from-faces");
        let [a, b] = e.faces();
        sta::check((a == f && b == g) || (a == g && b == f), "faces-of-edge");
    }
}
fn face_pair(a: &[Face; 2], b: &[Face; 2]) -> bool {
    (a[0] == b[0] && a[1] == b[1]) || (a[0] == b[1] && a[1] == b[0])
}
pub fn entry_edge_rotated() {
    let mut e = Edge::new(sta::any("normal"), any_vec2(), sta::any("oriented"));
    let r = any_rotation();
    let faces = e.faces().map(|f| f.rotated(&r));
    e.rotate(&r);
    sta::check(face_pair(&faces, &e.faces()), "edge-rotated");
}
pub fn entry_corner_rotated() {
    let mut c = Corner::new(any_vec3(), sta::any("axis"));
    let r = any_rotation();
    let faces = c.faces().map(|f| f.rotated(&r));
    let o = c.orientation_axis.rotated(&r);
    c.rotate(&r);
    for f in &faces {
        let g = c.faces();
        sta::check(g[0] == *f || g[1] == *f || g[2] == *f, "corner-rotated");
    }
    sta::check(o == c.orientation_axis, "corner-orientation-rotated");
}
pub fn entry_wing() {
    let (n, s, d): (Axis, _, Direction) = (sta::any("normal"), any_vec2(), sta::any("d"));
    let w = Wing::new(n, s, d);
    sta::check(w.normal_axis() == n, "wing-axis");
    sta::check(w.slice_position() == s, "wing-slice");
    sta::check(w.normal_direction() == d, "wing-direction");
    let e = Edge::oriented(n, s);
    sta::check(face_pair(&w.faces(), &e.faces()), "wing-faces");
    sta::check(w.position() == w && w.is_solved(&w), "wing-position");
    let r = any_rotation();
    let faces = w.faces().map(|f| f.rotated(&r));
    let normal = Face::new(n, d).rotated(&r);
    let v = w.clone().rotated(&r);
    sta::check(face_pair(&faces, &v.faces()), "wing-rotated");
    sta::check(v.normal_axis() == normal.axis && v.normal_direction() == normal.direction, "wing-normal-rotated");
    sta::check(Wing::new(v.normal_axis(), v.slice_position(), v.normal_direction()) == v, "wing-again");
    sta::check(v.is_solved(&w) == (v == w), "wing-is-solved");
}
pub fn entry_wing_faces() {
    let (f, g): (Face, Face) = (sta::any("f"), sta::any("g"));
    let d: Direction = sta::any("d");
    match Wing::try_from_faces([f.clone(), g.clone()], d) {
        Err(_) => sta::check(f.axis == g.axis, "wing-refused"),
        Ok(w) => {
            sta::check(f.axis != g.axis, "wing-accepted");
            sta::check(face_pair(&w.faces(), &[f, g]) && w.normal_direction() == d, "wing-from-faces");
        }
    }
}
pub fn entry_center_edge() {
    let (f, g): (Face, Face) = (sta::any("f"), sta::any("g"));
    match CenterEdge::try_from_faces(f.clone(), g.clone()) {
        Err(_) => sta::check(f.axis == g.axis, "center-edge-refused"),
        Ok(c) => {
            sta::check(f.axis != g.axis, "center-edge-accepted");
            sta::check(c.main_face == f && c.side_face() == g, "center-edge-faces");
            sta::check(c.normal_axis() != f.axis && c.normal_axis() != g.axis, "center-edge-normal");
            let r = any_rotation();
            let d = c.clone().rotated(&r);
            sta::check(d.main_face == f.clone().rotated(&r) && d.side_face() == g.clone().rotated(&r), "center-edge-rotated");
            sta::check(d.is_solved(&c) == (d.main_face == c.main_face), "center-edge-is-solved");
            sta::check(CenterEdge::new(c.main_face.clone(), c.handedness, c.side_direction) == c, "center-edge-again");
        }
    }
}
pub fn entry_center_wing() {
    let (f, h, s, n): (Face, Direction, Direction, Direction) = (sta::any("f"), sta::any("h"), sta::any("s"), sta::any("n"));
    let c = CenterWing::new(f.clone(), h, s, n);
    let e = CenterEdge::new(f.clone(), h, s);
    sta::check(*c.main_face() == f, "center-wing-main");
    sta::check(c.side_face() == e.side_face(), "center-wing-side");
    sta::check(c.normal_axis() == e.normal_axis(), "center-wing-axis");
    sta::check(c.normal_direction() == n, "center-wing-direction");
    let r = any_rotation();
    let d = c.clone().rotated(&r);
    let normal = Face::new(c.normal_axis(), n).rotated(&r);
    sta::check(*d.main_face() == f.rotated(&r) && d.side_face() == e.side_face().rotated(&r), "center-wing-rotated");
    sta::check(d.normal_axis() == normal.axis && d.normal_direction() == normal.direction, "center-wing-normal-rotated");
    sta::check(d.is_solved(&c) == (d.main_face() == c.main_face()), "center-wing-is-solved");
}
/// tables of pieces: each place once, everything solved where it belongs
fn descriptor<P: PieceSetDescriptor<N>, const N: usize>() {
    for i in 0..N {
        for j in 0..i {
            sta::check(P::REFERENCE_POSITIONS[i] != P::REFERENCE_POSITIONS[j], "distinct-places");
        }
        sta::check(P::SOLVED[i].position() == P::REFERENCE_POSITIONS[i], "solved-place");
        sta::check(P::SOLVED[i].is_solved(&P::REFERENCE_POSITIONS[i]), "solved-is-solved");
    }
    let s = PieceSet::<P, N>::SOLVED;
    sta::check(s.is_solved(), "solved-set");
    sta::check(*s.pieces() == P::SOLVED, "solved-pieces");
    sta::check(PieceSet::<P, N>::REFERENCE_POSITIONS == P::REFERENCE_POSITIONS, "set-places");
    sta::check(PieceSet::<P, N>::new(P::SOLVED).is_ok(), "solved-valid");
}
pub fn entry_descriptors() {
    descriptor::<Corner, 8>();
    descriptor::<Edge, 12>();
    descriptor::<Wing, 24>();
    descriptor::<CenterCorner, 24>();
    descriptor::<CenterEdge, 24>();
    descriptor::<CenterWing, 48>();
}
/// a piece of its own, any place and any orientation
#[derive(Clone, PartialEq, Debug)]
pub struct Chip(pub usize, pub usize);
impl Piece for Chip {
    type Position = usize;
    fn position(&self) -> usize {
        self.0
    }
    fn is_solved(&self, original: &usize) -> bool {
        self.0 == *original && self.1 == 0
    }
}
impl PieceSetDescriptor<5> for Chip {
    const SOLVED: [Self; 5] = [Chip(3, 0), Chip(0, 0), Chip(4, 0), Chip(1, 0), Chip(2, 0)];
    const REFERENCE_POSITIONS: [usize; 5] = [3, 0, 4, 1, 2];
}
#[derive(Clone, Debug, PartialEq)]
pub struct Push(pub usize);
impl Move for Push {
    fn inverse(&self) -> Self {
        Push((5 - self.0) % 5)
    }
}
impl Movable<Push> for Chip {
    fn apply(&mut self, m: &Push) {
        self.0 = (self.0 + m.0) % 5;
        self.1 ^= 1;
    }
}
type Chips = PieceSet<Chip, 5>;
fn any_chips() -> [Chip; 5] {
    core::array::from_fn(|_| Chip(sta::pick("place", 5), sta::pick("turned", 2)))
}
fn distinct(a: &[Chip; 5]) -> bool {
    let mut ok = true;
    for i in 0..5 {
        for j in 0..i {
            ok &= a[i].0 != a[j].0;
        }
    }
    ok
}
pub fn entry_set_new() {
    let a = any_chips();
    let good = distinct(&a);
    match Chips::new(a.clone()) {
        Ok(s) => {
            sta::check(good, "accepted");
            sta::check(*s.pieces() == a, "pieces");
            sta::check(s.validate().is_none(), "valid");
        }
        Err(_) => sta::check(!good, "refused"),
    }
}
const PLACES: [usize; 5] = [3, 0, 4, 1, 2];
/// an arbitrary assembly with every piece at a place of its own
fn assembly() -> [Chip; 5] {
    let mut left = PLACES;
    let mut a: [Chip; 5] = core::array::from_fn(|_| Chip(0, 0));
    for i in 0..5 {
        let j = i + sta::pick("arrange", 5 - i);
        left.swap(i, j);
        a[i] = Chip(left[i], sta::pick("turned", 2));
    }
    a
}
pub fn entry_set() {
    let a = assembly();
    let s = match Chips::new(a.clone()) {
        Ok(s) => s,
        Err(_) => {
            sta::check(false, "assembly-accepted");
            return;
        }
    };
    let mut home = true;
    for i in 0..5 {
        home &= a[i].0 == PLACES[i] && a[i].1 == 0;
        sta::check(s.at_index(i) == Some(&a[i]), "at-index");
        sta::check(*s.piece_originally_at(&PLACES[i]) == a[i], "piece-originally-at");
        sta::check(s.original_position_of_piece_at(&a[i].0) == PLACES[i], "original-position");
    }
    sta::check(s.at_index(5).is_none(), "at-index-outside");
    sta::check(s.is_solved() == home, "set-is-solved");
    let mut n = 0;
    for p in s.iter() {
        sta::check(*p == a[n], "iter");
        n += 1;
    }
    sta::check(n == 5, "iter-all");
    n = 0;
    for (pos, p) in s.iter_with_pos() {
        sta::check(*p == a[n] && pos == PLACES[n], "iter-with-pos");
        n += 1;
    }
    sta::check(n == 5, "iter-with-pos-all");
    n = 0;
    for (pos, p) in Chips::zip_positions(0..5usize) {
        sta::check(p == n && pos == PLACES[n], "zip-positions");
        n += 1;
    }
    sta::check(n == 5, "zip-positions-all");
    n = 0;
    for p in s.clone().into_iter() {
        sta::check(p == a[n], "into-iter");
        n += 1;
    }
    sta::check(n == 5, "into-iter-all");
    let mut t = s.clone();
    for p in t.iter_mut_unchecked() {
        p.1 ^= 1;
    }
    for i in 0..5 {
        sta::check(t.pieces()[i].0 == a[i].0 && t.pieces()[i].1 == a[i].1 ^ 1, "iter-mut");
    }
}
pub fn entry_set_swap() {
    let a = assembly();
    let mut s = Chips::new(a.clone()).unwrap();
    let (i, j) = (sta::pick("i", 5), sta::pick("j", 5));
    s.swap(&PLACES[i], &PLACES[j]);
    for k in 0..5 {
        let want = if k == i {
            &a[j]
        } else if k == j {
            &a[i]
        } else {
            &a[k]
        };
        sta::check(s.pieces()[k] == *want, "swapped");
    }
}
pub fn entry_set_move() {
    let a = assembly();
    let mut s = Chips::new(a.clone()).unwrap();
    let m = Push(sta::pick("push", 5));
    <Chips as Movable<Push>>::apply(&mut s, &m);
    for k in 0..5 {
        sta::check(s.pieces()[k] == a[k].clone().moved(&m), "moved");
    }
}
pub fn entry_set_shuffle() {
    let mut s = Chips::SOLVED;
    s.shuffle(&mut AnyRng);
    sta::check(distinct(s.pieces()), "shuffle-keeps-pieces");
    let p = s.pieces();
    let mut code = 0;
    for i in 0..5 {
        sta::check(p[i].1 == 0, "shuffle-keeps-orientation");
        code = code * 5 + p[i].0;
    }
    sta::out("code", &code);
}
const LARGE: usize = 48;
const fn large_places() -> [usize; LARGE] {
    let mut p = [0; LARGE];
    let mut k = 0;
    while k < LARGE {
        p[k] = (5 * k + 3) % LARGE;
        k += 1;
    }
    p
}
const fn large_solved() -> [Chip; LARGE] {
    let mut p = [const { Chip(0, 0) }; LARGE];
    let mut k = 0;
    while k < LARGE {
        p[k] = Chip(large_places()[k], 0);
        k += 1;
    }
    p
}
impl PieceSetDescriptor<LARGE> for Chip {
    const SOLVED: [Self; LARGE] = large_solved();
    const REFERENCE_POSITIONS: [usize; LARGE] = large_places();
}
type ManyChips = PieceSet<Chip, LARGE>;
/// sets as large as the largest of the crate: any two of the pieces
pub fn entry_set_large() {
    let places = large_places();
    let (i, j) = (sta::pick("i", LARGE), sta::pick("j", LARGE));
    // every piece where another belongs
    let a: [Chip; LARGE] = core::array::from_fn(|k| Chip(places[(7 * k + 20) % LARGE], k & 1));
    let mut b = a.clone();
    b[i].0 = b[j].0;
    b[i].1 ^= 1;
    match ManyChips::new(b) {
        Ok(s) => sta::check(i == j && s.pieces()[i] == Chip(a[i].0, a[i].1 ^ 1), "accepted"),
        Err(_) => sta::check(i != j, "refused"),
    }
    let Ok(mut s) = ManyChips::new(a.clone()) else {
        sta::check(false, "assembly-accepted");
        return;
    };
    sta::check(!s.is_solved(), "set-is-solved");
    sta::check(s.at_index(i) == Some(&a[i]), "at-index");
    sta::check(*s.piece_originally_at(&places[i]) == a[i], "piece-originally-at");
    sta::check(s.original_position_of_piece_at(&a[i].0) == places[i], "original-position");
    s.swap(&places[i], &places[j]);
    for k in 0..LARGE {
        let want = if k == i {
            &a[j]
        } else if k == j {
            &a[i]
        } else {
            &a[k]
        };
        sta::check(s.pieces()[k] == *want, "swapped");
    }
    let mut t = ManyChips::SOLVED;
    sta::check(t.is_solved(), "set-is-solved");
    for (k, p) in t.iter_mut_unchecked().enumerate() {
        if k == i {
            p.1 = 1;
        }
    }
    sta::check(!t.is_solved(), "set-is-solved");
}
fn shuffle_large<const LO: usize>() {
    sta::window(LO, 3, 1);
    let mut s = ManyChips::SOLVED;
    s.shuffle(&mut AnyRng);
    let mut seen = [0; LARGE];
    for p in s.pieces() {
        sta::check(p.1 == 0, "shuffle-keeps-orientation");
        seen[p.0] += 1;
    }
    for k in 0..LARGE {
        sta::check(seen[k] == 1, "shuffle-keeps-pieces");
    }
}
pub fn entry_set_large_shuffle_0() {
    shuffle_large::<0>();
}
pub fn entry_set_large_shuffle_22() {
    shuffle_large::<22>();
}
pub fn entry_set_large_shuffle_44() {
    shuffle_large::<44>();
}
/// edges: least number of turns
pub fn entry_edge_moves() {
    fix::<Cube3, AxisMove>(Cube3::new_solved);
    sta::pieces("home", &Cube3::SOLVED);
    let m: AxisMove = sta::any("m");
    sta::out("m", &m);
    let mut c = Cube3::new_solved();
    sta::havoc(&mut c, "s");
    sta::pieces("before", &c);
    let mut least = [0; 12];
    for (k, e) in c.edges.pieces().iter().enumerate() {
        least[k] = min_moves_to_solve(&Edge::REFERENCE_POSITIONS[k], e);
    }
    sta::out("least", &least);
    c.apply(&m);
    sta::pieces("after", &c);
}
