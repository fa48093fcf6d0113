//! What holds for everything that can be turned, held, compared or hashed.
use crate::space::{any_rotation, any_vec2, any_vec3};
use crate::sta;
use barbarosa::cube_n::moves::rotation::{AxisRotation, Rotatable};
use barbarosa::cube_n::moves::wide::DepthPiece;
use barbarosa::cube_n::moves::{Amount, AxisMove, ExtendedAxisMove, QuarterAxisMove, WideAxisMove};
use barbarosa::cube_n::pieces::center::edge::CenterEdge;
use barbarosa::cube_n::pieces::center::wing::CenterWing;
use barbarosa::cube_n::pieces::{CenterCorner, Corner, Edge, Wing};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::*;
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Alg, Cube, Movable, PieceSet};
use std::hash::{Hash, Hasher};

fn piece<P: PieceSetDescriptor<N> + Clone, const N: usize>(name: &'static str) -> P {
    P::SOLVED[sta::pick(name, N)].clone()
}
fn corner() -> Corner {
    Corner::new(any_vec3(), sta::any("axis"))
}
fn edge() -> Edge {
    Edge::new(sta::any("normal"), any_vec2(), sta::any("oriented"))
}

/// a turn of something, seen from elsewhere, is the turn of what is seen there
fn turned_and_held<P: Rotatable + Movable<AxisMove> + Clone + PartialEq>(p: P) {
    let (m, r) = (sta::any::<AxisMove>("m"), any_rotation());
    sta::check(p.clone().moved(&m).rotated(&r) == p.rotated(&r).moved(&m.rotated(&r)), "turn-seen-from-elsewhere");
}
pub fn entry_held_corner() {
    turned_and_held(corner());
}
pub fn entry_held_edge() {
    turned_and_held(edge());
}
fn in_wide_move<P: DepthPiece + Rotatable + Clone>(p: P) {
    let (m, r) = (sta::any::<AxisMove>("m"), any_rotation());
    let (normal, tangent, depth) = (sta::pick("normal-depth", 3) as u32 + 1, sta::pick("tangent-depth", 3) as u32 + 1, sta::pick("depth", 4) as u32);
    let Ok(a) = WideAxisMove::<3>::new(m.face.clone(), m.amount.clone(), depth) else { return };
    let n = m.rotated(&r);
    let Ok(b) = WideAxisMove::<3>::new(n.face, n.amount, depth) else { return };
    sta::check(p.is_in_wide_move(normal, tangent, &a) == p.rotated(&r).is_in_wide_move(normal, tangent, &b), "layer-seen-from-elsewhere");
}
pub fn entry_held_wing() {
    in_wide_move(piece::<Wing, 24>("piece"));
}
pub fn entry_held_center_edge() {
    in_wide_move(piece::<CenterEdge, 24>("piece"));
}
pub fn entry_held_center_corner() {
    in_wide_move(piece::<CenterCorner, 24>("piece"));
}
pub fn entry_held_center_wing() {
    in_wide_move(piece::<CenterWing, 48>("piece"));
}

/// rotating is rotating, whatever is rotated
fn rotates<P: Rotatable + Clone + PartialEq>(p: P) {
    let (a, b) = (any_rotation(), any_rotation());
    // the rotation `a` as seen after `b`
    let m = AxisMove::new(Face::new(a.axis, Direction::Positive), a.amount.clone()).rotated(&b);
    let seen = AxisRotation::from(&m);
    sta::check(p.clone().rotated(&a).rotated(&b) == p.clone().rotated(&b).rotated(&seen), "rotations-compose");
    let quarter = AxisRotation::new(a.axis, Amount::Single);
    let half = AxisRotation::new(a.axis, Amount::Double);
    let back = AxisRotation::new(a.axis, Amount::Inverse);
    let twice = p.clone().rotated(&quarter).rotated(&quarter);
    sta::check(twice == p.clone().rotated(&half), "half-is-two-quarters");
    sta::check(twice.clone().rotated(&quarter) == p.clone().rotated(&back), "inverse-is-three-quarters");
    sta::check(twice.rotated(&half) == p, "four-quarters-are-nothing");
}
pub fn entry_rotates_small() {
    rotates(sta::any::<Face>("face"));
    rotates(any_vec3());
    rotates(sta::any::<AxisMove>("m"));
}
/// of an axis only the line counts
pub fn entry_rotates_pieces() {
    rotates(corner());
    rotates(edge());
    rotates(piece::<Wing, 24>("wing"));
}
pub fn entry_rotates_centers() {
    rotates(piece::<CenterEdge, 24>("edge"));
    rotates(piece::<CenterCorner, 24>("corner"));
    rotates(piece::<CenterWing, 48>("wing"));
}
pub fn entry_rotates_alg() {
    let moves: [AxisMove; 3] = core::array::from_fn(|_| sta::any("m"));
    let n = sta::pick("length", 4);
    let r = any_rotation();
    let alg = Alg::new(moves[..n].to_vec());
    let turned = alg.clone().rotated(&r);
    sta::check(turned.moves.len() == n, "alg-keeps-length");
    for i in 0..n {
        sta::check(turned.moves[i] == moves[i].clone().rotated(&r), "alg-rotated-move-by-move");
    }
}
pub fn entry_rotates_long() {
    let moves: Vec<AxisMove> = (0..30).map(|_| sta::any("m")).collect();
    let r = any_rotation();
    let turned = Alg::new(moves.clone()).rotated(&r);
    sta::check(turned.moves.len() == 30, "alg-keeps-length");
    for i in 0..30 {
        sta::check(turned.moves[i] == moves[i].clone().rotated(&r), "alg-rotated-move-by-move");
    }
}
/// holding a cube differently, doing an alg there
pub fn entry_held_alg() {
    let moves: [AxisMove; 2] = core::array::from_fn(|_| sta::any("m"));
    let r = any_rotation();
    let alg = Alg::new(moves.to_vec());
    let e = edge();
    sta::check(e.clone().moved(&alg).rotated(&r) == e.rotated(&r).moved(&alg.clone().rotated(&r)), "alg-seen-from-elsewhere");
    let c = corner();
    sta::check(c.clone().moved(&alg).rotated(&r) == c.rotated(&r).moved(&alg.rotated(&r)), "alg-seen-from-elsewhere");
}

/// what a value feeds to a hasher
#[derive(PartialEq)]
struct Fed {
    n: usize,
    sum: u64,
}
impl Hasher for Fed {
    fn finish(&self) -> u64 {
        self.sum
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.n += 1;
            self.sum = self.sum.wrapping_mul(31).wrapping_add(*b as u64 + 1);
        }
    }
}
fn fed<T: Hash>(x: &T) -> Fed {
    let mut h = Fed { n: 0, sum: 0 };
    x.hash(&mut h);
    h
}
fn same<T: PartialEq + Clone>(a: &T, b: &T, really: bool) {
    sta::check((a == b) == really, "equal-exactly-if-the-same");
    sta::check((b == a) == really, "equal-exactly-if-the-same");
    sta::check((a != b) != really, "equal-exactly-if-the-same");
    sta::check(a.clone() == *a, "clone-is-the-same");
}
fn same_hash<T: PartialEq + Clone + Hash>(a: &T, b: &T, really: bool) {
    same(a, b, really);
    sta::check(a != b || fed(a) == fed(b), "equal-hash-alike");
    sta::check(fed(&a.clone()) == fed(a), "clone-hashes-alike");
}
pub fn entry_eq_space() {
    let (a, b) = (sta::any::<Face>("a"), sta::any::<Face>("b"));
    same_hash(&a, &b, a.index() == b.index());
    same_hash(&a.axis, &b.axis, a.axis as u8 == b.axis as u8);
    same_hash(&a.direction, &b.direction, a.direction as i8 == b.direction as i8);
}
pub fn entry_eq_corner() {
    let (p, q) = ([sta::any::<Direction>("x"), sta::any("y"), sta::any("z")], [sta::any::<Direction>("x2"), sta::any("y2"), sta::any("z2")]);
    let (k, l) = (sta::any::<Axis>("axis"), sta::any::<Axis>("axis2"));
    let (a, b) = (Corner::new(p.into(), k), Corner::new(q.into(), l));
    same_hash(&a, &b, p == q && k == l);
}
pub fn entry_eq_edge() {
    let (p, q) = ([sta::any::<Direction>("x"), sta::any("y")], [sta::any::<Direction>("x2"), sta::any("y2")]);
    let (k, l) = (sta::any::<Axis>("normal"), sta::any::<Axis>("normal2"));
    let (o, u) = (sta::any::<bool>("oriented"), sta::any::<bool>("oriented2"));
    same_hash(&Edge::new(k, p.into(), o), &Edge::new(l, q.into(), u), p == q && k == l && o == u);
}
fn eq_pieces<P: PieceSetDescriptor<N> + Clone + PartialEq + Hash, const N: usize>() {
    let (i, j) = (sta::pick("i", N), sta::pick("j", N));
    let (a, b) = (P::SOLVED[i].clone(), P::SOLVED[j].clone());
    same_hash(&a, &b, i == j);
}
pub fn entry_eq_wing() {
    eq_pieces::<Wing, 24>();
}
pub fn entry_eq_center_edge() {
    eq_pieces::<CenterEdge, 24>();
}
pub fn entry_eq_center_corner() {
    eq_pieces::<CenterCorner, 24>();
}
pub fn entry_eq_center_wing() {
    eq_pieces::<CenterWing, 48>();
}
pub fn entry_eq_moves() {
    let (a, b) = (sta::any::<AxisMove>("a"), sta::any::<AxisMove>("b"));
    let faces = a.face.index() == b.face.index();
    let amounts = a.amount.clone() as usize == b.amount.clone() as usize;
    same(&a, &b, faces && amounts);
    same(&a.amount, &b.amount, amounts);
    let (r, s) = (AxisRotation::new(a.face.axis, a.amount.clone()), AxisRotation::new(b.face.axis, b.amount.clone()));
    same(&r, &s, a.face.axis == b.face.axis && amounts);
    let (d, e) = (sta::pick("d", 3) as u32, sta::pick("e", 3) as u32);
    if let (Ok(w), Ok(x)) = (WideAxisMove::<2>::new(a.face.clone(), a.amount.clone(), d), WideAxisMove::<2>::new(b.face.clone(), b.amount.clone(), e)) {
        same(&w, &x, faces && amounts && d == e);
    }
    if let (Ok(w), Ok(x)) = (WideAxisMove::<{ u32::MAX }>::new(a.face.clone(), a.amount.clone(), d), WideAxisMove::<{ u32::MAX }>::new(b.face.clone(), b.amount.clone(), e)) {
        same(&ExtendedAxisMove::Wide(w), &ExtendedAxisMove::Wide(x), faces && amounts && d == e);
    }
    same(&ExtendedAxisMove::Regular(a.clone()), &ExtendedAxisMove::Regular(b.clone()), faces && amounts);
    sta::check(ExtendedAxisMove::Regular(a.clone()) != ExtendedAxisMove::Rotation(r), "equal-exactly-if-the-same");
    let (p, q) = (sta::any::<Direction>("p"), sta::any::<Direction>("q"));
    same(&QuarterAxisMove { face: a.face.clone(), direction: p }, &QuarterAxisMove { face: b.face.clone(), direction: q }, faces && p == q);
}
pub fn entry_eq_alg() {
    let a: [AxisMove; 2] = core::array::from_fn(|_| sta::any("a"));
    let b: [AxisMove; 2] = core::array::from_fn(|_| sta::any("b"));
    let (m, n) = (sta::pick("m", 3), sta::pick("n", 3));
    let mut really = m == n;
    for i in 0..2 {
        if i < m && i < n && a[i] != b[i] {
            really = false;
        }
    }
    same(&Alg::<AxisMove>::new(a[..m].to_vec()), &Alg::<AxisMove>::new(b[..n].to_vec()), really);
}
/// long algs that differ, if at all, in one place or in length
fn eq_at(at: usize) {
    let a: Vec<AxisMove> = (0..30).map(|i| AxisMove::new([Face::R, Face::U, Face::F][i % 3].clone(), Amount::Single)).collect();
    let mut v = a.clone();
    let mut w = a;
    v[at] = sta::any("a");
    w[at] = sta::any("b");
    same(&Alg::<AxisMove>::new(v.clone()), &Alg::<AxisMove>::new(w.clone()), v[at] == w[at]);
    let n = sta::pick("n", 31);
    sta::check((Alg::<AxisMove>::new(v.clone()) == Alg::<AxisMove>::new(v[..n].to_vec())) == (n == 30), "equal-exactly-if-the-same");
}
pub fn entry_eq_long() {
    eq_at(0);
    eq_at(17);
    eq_at(29);
}
/// two cubes, a turn from solved each, are the same if the turns are
fn eq_cubes<C: Cube + Movable<WideAxisMove<D>>, const D: u32>() {
    let (m, n) = (sta::any::<AxisMove>("m"), sta::any::<AxisMove>("n"));
    let (d, e) = (sta::pick("d", D as usize + 1) as u32, sta::pick("e", D as usize + 1) as u32);
    let really = m == n && d == e;
    if let (Ok(v), Ok(w)) = (WideAxisMove::<D>::new(m.face, m.amount, d), WideAxisMove::<D>::new(n.face, n.amount, e)) {
        same(&C::SOLVED.moved(&v), &C::SOLVED.moved(&w), really);
    }
}
fn eq_small<C: Cube + Movable<AxisMove> + Hash>() {
    let (m, n) = (sta::any::<AxisMove>("m"), sta::any::<AxisMove>("n"));
    let really = m == n;
    let (a, b) = (C::SOLVED.moved(&m), C::SOLVED.moved(&n));
    same(&a, &b, really);
    sta::check(fed(&a.clone()) == fed(&a), "clone-hashes-alike");
    sta::check(a != b || fed(&a) == fed(&b), "equal-hash-alike");
    // the same place on two ways
    let half = AxisMove::new(m.face.clone(), Amount::Double);
    let quarter = AxisMove::new(m.face, Amount::Single);
    let (c, d) = (C::SOLVED.moved(&half), C::SOLVED.moved(&quarter).moved(&quarter));
    sta::check(c == d, "equal-exactly-if-the-same");
    sta::check(fed(&c) == fed(&d), "equal-hash-alike");
}
pub fn entry_eq_2() {
    eq_small::<Cube2>();
}
pub fn entry_eq_3() {
    eq_small::<Cube3>();
}
pub fn entry_eq_4() {
    eq_cubes::<Cube4, 1>();
    let (m, n) = (sta::any::<AxisMove>("m"), sta::any::<AxisMove>("n"));
    let (a, b) = (Cube4::SOLVED.moved(&m), Cube4::SOLVED.moved(&n));
    sta::check(a != b || fed(&a) == fed(&b), "equal-hash-alike");
    sta::check(fed(&a.clone()) == fed(&a), "clone-hashes-alike");
}
pub fn entry_eq_5() {
    eq_cubes::<Cube5, 1>();
}
pub fn entry_eq_6() {
    eq_cubes::<Cube6, 2>();
}
pub fn entry_eq_7() {
    eq_cubes::<Cube7, 2>();
}
pub fn entry_eq_oriented() {
    let (r, s) = (any_rotation(), any_rotation());
    let (a, b) = (Orientable::new(Cube2::SOLVED).moved(&ExtendedAxisMove::Rotation(r.clone())), Orientable::new(Cube2::SOLVED).moved(&ExtendedAxisMove::Rotation(s.clone())));
    same(&a, &b, r == s);
}
/// two sets with one different piece
pub fn entry_eq_sets() {
    let (i, j) = (sta::pick("i", 8), sta::pick("j", 8));
    let mut a = PieceSet::<Corner, 8>::SOLVED.clone();
    let mut b = PieceSet::<Corner, 8>::SOLVED.clone();
    for (k, c) in a.iter_mut_unchecked().enumerate() {
        if k == i {
            c.twist();
        }
    }
    for (k, c) in b.iter_mut_unchecked().enumerate() {
        if k == j {
            c.twist();
        }
    }
    same_hash(&a, &b, i == j);
}
/// showing a value while looking for a mistake makes no other
fn shown<T: std::fmt::Debug>(x: &T) {
    let s = format!("{x:?}");
    sta::check(!s.is_empty(), "shown");
}
pub fn entry_debug_space() {
    shown(&sta::any::<Face>("face"));
    shown(&sta::any::<Axis>("axis"));
    shown(&sta::any::<Direction>("direction"));
}
pub fn entry_debug_pieces() {
    shown(&corner());
    shown(&edge());
    shown(&piece::<Wing, 24>("piece"));
}
pub fn entry_debug_centers() {
    shown(&piece::<CenterEdge, 24>("piece"));
    shown(&piece::<CenterCorner, 24>("piece"));
    shown(&piece::<CenterWing, 48>("piece"));
}
pub fn entry_debug_moves() {
    let a = sta::any::<AxisMove>("a");
    shown(&a);
    shown(&any_rotation());
    shown(&ExtendedAxisMove::Rotation(any_rotation()));
    shown(&Alg::<AxisMove>::new(vec![a.clone(), a]));
}
pub fn entry_debug_cubes() {
    shown(&Cube2::SOLVED);
    shown(&Cube3::SOLVED);
}
pub fn entry_debug_errors() {
    let e = WideAxisMove::<1>::new(sta::any("face"), sta::any("amount"), 2).unwrap_err();
    shown(&e);
    sta::check(!e.to_string().is_empty(), "shown");
    let f = Edge::position_from_faces([Face::R, Face::L]).unwrap_err();
    shown(&f);
    sta::check(!f.to_string().is_empty(), "shown");
    let (i, j) = (sta::pick("i", 2), sta::pick("j", 2));
    let mut states = [Cube2::SOLVED, Cube2::SOLVED];
    states[i].apply(&AxisMove::new(Face::R, Amount::Single));
    states[j].apply(&AxisMove::new(Face::U, Amount::Single));
    match Alg::<AxisMove>::try_from(&states[..]) {
        Ok(a) => sta::check(a.moves.len() == 1 && states[0].clone().moved(&a) == states[1], "slice-connected"),
        Err(e) => sta::check(!e.to_string().is_empty(), "shown"),
    }
}
/// the algs everybody knows
pub fn entry_perms() {
    use barbarosa::cube_n::moves::perms::{pll, SEXY_MOVE};
    let m = sta::any::<AxisMove>("m");
    let e = edge();
    let c = corner();
    for alg in [&SEXY_MOVE, &pll::T, &pll::U, &pll::J] {
        sta::check(e.clone().moved(alg) == e.clone().moved(&**alg), "shared-alg-is-alg");
        sta::check(c.clone().moved(alg) == c.clone().moved(&**alg), "shared-alg-is-alg");
    }
    let _ = m;
}
pub fn entry_center_again() {
    let (f, h, s, p) = (sta::any::<Face>("face"), sta::any("h"), sta::any("s"), sta::any::<bool>("p"));
    let w = CenterWing::new_with_orientation(f.clone(), h, s, p);
    let n = w.normal_direction();
    sta::check(w == CenterWing::new(f, h, s, n), "made-again");
    let (a, b) = (piece::<CenterCorner, 24>("a"), piece::<CenterCorner, 24>("b"));
    sta::check(CenterCorner::is_solved(&a, &b) == barbarosa::generic::Piece::is_solved(&a, &b), "solved-either-way");
}
pub fn entry_factorial() {
    use barbarosa::cube3::mus::index::factorial;
    let n = sta::pick("n", 24);
    let mut f = 1usize;
    for i in 2..21 {
        if i <= n {
            f *= i;
        }
    }
    sta::check(factorial(n) == if n > 20 { 0 } else { f }, "factorial");
}
/// what is wrong with a set of pieces can be shown
pub fn entry_refused_sets() {
    let mut pieces = <Corner as PieceSetDescriptor<8>>::SOLVED;
    let (i, j) = (sta::pick("i", 8), sta::pick("j", 8));
    pieces[i] = pieces[j].clone();
    match PieceSet::<Corner, 8>::new(pieces) {
        Ok(_) => sta::check(i == j, "refused-exactly-if-twice"),
        Err(e) => {
            sta::check(i != j, "refused-exactly-if-twice");
            sta::check(!e.to_string().is_empty(), "shown");
            shown(&e);
        }
    }
}
/// what stands for the same is the same, however it is made
pub fn entry_made_again() {
    let r = any_rotation();
    sta::check(ExtendedAxisMove::from(r.clone()) == ExtendedAxisMove::Rotation(r.clone()), "made-again");
    let wide = sta::any::<bool>("wide");
    sta::check(ExtendedAxisMove::from((r.clone(), wide)) == ExtendedAxisMove::Slice { rot: r, wide }, "made-again");
}
/// all of something, from the end
pub fn entry_backwards() {
    use strum::IntoEnumIterator;
    fn both<T: IntoEnumIterator + PartialEq, const N: usize>()
    where
        T::Iterator: DoubleEndedIterator + ExactSizeIterator,
    {
        let all: Vec<T> = T::iter().collect();
        let back: Vec<T> = T::iter().rev().collect();
        sta::check(all.len() == N && back.len() == N && T::iter().len() == N, "all-of-them");
        for i in 0..N {
            sta::check(all[i] == back[N - 1 - i], "backwards");
        }
        // meeting in the middle
        let mut it = T::iter();
        let (a, b) = (it.next(), it.next_back());
        sta::check(a.as_ref() == Some(&all[0]) && b.as_ref() == Some(&all[N - 1]), "backwards");
        sta::check(it.len() == N - 2, "all-of-them");
        sta::check(it.nth(N).is_none() && it.next().is_none() && it.next_back().is_none(), "all-of-them");
    }
    both::<Axis, 3>();
    both::<Direction, 2>();
    both::<Amount, 3>();
}
