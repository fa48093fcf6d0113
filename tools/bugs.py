"""The planted changes: what each edits, and a program that shows the difference.

`seed.py` turns each into seeded/<id>/ (patch.diff, demo.sh, main.rs, meta.json).
Each was written from the text of a property and the code.  No check reads this file.
"""

B = {}


def bug(id, prop, needs, breaks, edits, main, kind="lib"):
    B[id] = dict(property=prop, needs=needs, what_it_breaks=breaks, edits=edits, main=main, kind=kind)


GEN = "barbarosa/src/generic/"
CN = "barbarosa/src/cube_n/"

bug("center_wing_side", "C02", "a wide turn of depth 1 on the 6x6 or 7x7, looking at the center wings beside the turned face",
    "center wings beside the turned face only join turns that are deep enough for their other coordinate",
    [(CN + "pieces/center/wing.rs", "            return normal_depth <= m.depth();", "            return tangent_depth <= m.depth();")],
    r'''
use barbarosa::cube_n::{moves::wide::DepthPiece, pieces::center::wing::CenterWing, space::{Face, Direction::*}, moves::Amount, WideAxisMove};
fn main() {
    for main in Face::iter() { for h in [Positive, Negative] { for s in [Positive, Negative] { for n in [Positive, Negative] {
        let w = CenterWing::new(main.clone(), h, s, n);
        for depth in 0..=2 {
            let m = WideAxisMove::<2>::new(w.side_face(), Amount::Single, depth).unwrap();
            assert_eq!(w.is_in_wide_move(1, 2, &m), 1 <= depth, "{w:?} depth {depth}");
            assert_eq!(w.is_in_wide_move(2, 1, &m), 2 <= depth, "{w:?} depth {depth}");
        }
    } } } }
}
''')

bug("narrow_type_depth", "C03", "a wide turn on the 6x6 or 7x7 written with a narrower type and a depth smaller than that type allows",
    "the depth of the type is used instead of the depth of the move",
    [(CN + "moves/wide.rs", """                // Safe because width is statically asserted to be less than max_width
                // (and even if it wasn't it wouldn't be memory unsafe, just incorrect)
                let wider = unsafe {
                    std::mem::transmute::<&WideAxisMove<$width>, &WideAxisMove<$max_width>>(m)
                };

                self.apply(wider);
""", """                let wider = m
                    .axis_move
                    .clone()
                    .widen::<$max_width>($width)
                    .expect("width is statically asserted to be less than max_width");

                self.apply(&wider);
""")],
    r'''
use barbarosa::{cube_n::{Cube7, AxisMove, WideAxisMove, moves::Amount, space::Face}, generic::{Cube, Movable}};
fn main() {
    for face in Face::iter() { for depth in 0..=1 {
        let narrow = WideAxisMove::<1>::new(face.clone(), Amount::Single, depth).unwrap();
        let wide = WideAxisMove::<2>::new(face.clone(), Amount::Single, depth).unwrap();
        assert_eq!(Cube7::SOLVED.moved(&narrow), Cube7::SOLVED.moved(&wide));
    } }
    let _ = AxisMove::new(Face::R, Amount::Single);
}
''')

bug("seven_solved", "C04", "a 7x7 on which the only pieces out of place are center wings",
    "the 7x7 is said to be solved although its center wings are not",
    [(CN + "cube7/mod.rs", "            && self.center_wings.is_solved()\n", "")],
    r'''
use barbarosa::{cube_n::{Cube7, WideAxisMove, moves::Amount, space::Face}, generic::{Cube, Movable, Move}};
type W = WideAxisMove<2>;
fn w(f: Face, a: Amount, d: u32) -> W { W::new(f, a, d).unwrap() }
// one inner layer
fn layer(f: Face, a: Amount, d: u32) -> Vec<W> {
    let inner = w(f.clone(), a, d - 1).inverse();
    vec![w(f, a, d), inner]
}
fn inverse(v: &[W]) -> Vec<W> { v.iter().rev().map(|m| m.inverse()).collect() }
// [[layer 1 of F, U], layer 2 of R]-like commutators cycle three center wings
fn main() {
    use Amount::*;
    let mut found = false;
    for (a, b) in [(1, 2), (2, 1)] { for f1 in [Face::F, Face::B] { for f2 in [Face::R, Face::L] { for am in [Single, Inverse] { for am2 in [Single, Inverse] { for am3 in [Single, Inverse] {
        let x = layer(f2.clone(), am, a);
        let u = vec![w(Face::U, am2, 0)];
        let y = layer(f1.clone(), am3, b);
        let _ = &y;
        let z = layer(f2.opposite(), am3, b);
        // [x, u z u']
        let mut conj = u.clone(); conj.extend(z.clone()); conj.extend(inverse(&u));
        for c in [conj, { let mut c = u.clone(); c.extend(y.clone()); c.extend(inverse(&u)); c }] {
            let mut alg = x.clone(); alg.extend(c.clone()); alg.extend(inverse(&x)); alg.extend(inverse(&c));
            let cube = Cube7::SOLVED.moved(&alg[..]);
            // all pieces but the centers are interchangeable-free, so if only centers moved the text tells
            if solved_but(&cube) { assert!(!cube.is_solved(), "center wings are out of place"); found = true; }
        }
    } } } } } }
    assert!(found);
}
fn solved_but(cube: &Cube7) -> bool {
    // compare the main faces of all pieces by their printed form; only center wings may differ
    let a = format!("{:#?}", cube); let b = format!("{:#?}", Cube7::SOLVED);
    let split = |s: &str| -> Vec<(String, String)> {
        let mut out = vec![]; let mut name = String::new(); let mut body = String::new();
        for l in s.lines() {
            if l.starts_with("    ") && !l.starts_with("     ") && l.contains(':') {
                out.push((name.clone(), body.clone())); name = l.trim().split(':').next().unwrap().into(); body.clear();
            }
            body.push_str(l); body.push('\n');
        }
        out.push((name, body)); out
    };
    let (a, b) = (split(&a), split(&b));
    let mains = |s: &str| -> Vec<String> { s.lines().filter(|l| l.contains("main_face")).map(|l| l.trim().to_string()).collect() };
    a.iter().zip(&b).all(|((n, x), (_, y))| if n == "center_wings" { mains(x) != mains(y) } else { x == y })
}
''')

bug("center_edge_solved", "C04", "a state whose center edges on two opposite faces are exchanged while everything else is home",
    "center edges on the opposite face count as solved",
    [(CN + "pieces/center/edge.rs", "        self.main_face == original_pos.main_face\n", "        self.main_face.axis == original_pos.main_face.axis\n")],
    r'''
use barbarosa::{cube_n::{pieces::center::edge::CenterEdge, space::Face}, generic::{Piece, piece::PieceSetDescriptor}};
fn main() {
    for a in CenterEdge::SOLVED { for b in CenterEdge::SOLVED {
        assert_eq!(a.is_solved(&b), a.main_face == b.main_face, "{a:?} {b:?}");
    } }
    let _ = Face::R;
}
''')

bug("double_inverse", "C05", "the inverse of a parallel turn whose negative face is turned by a quarter",
    "the inverse of a parallel turn keeps the amount of the negative face",
    [(CN + "moves/non_redundant.rs", "                amount_negative: *amount_negative * Direction::Negative,\n", "                amount_negative: *amount_negative,\n")],
    r'''
use barbarosa::{cube3::Cube3, cube_n::moves::NonRedundantAxisMove, generic::{Cube, Movable, Move}};
fn main() {
    for m in NonRedundantAxisMove::all() {
        assert_eq!(Cube3::SOLVED.moved(&m).moved(&m.inverse()), Cube3::SOLVED, "{m}");
    }
}
''')

bug("slice_inverse", "C05", "the inverse of a wide slice turn on a cube of at least four layers",
    "the inverse of a wide slice turn is a turn of one slice fewer",
    [(CN + "moves/extended.rs", "                wide: *wide,\n", "                wide: *wide && rot.amount == super::Amount::Double,\n")],
    r'''
use barbarosa::{cube_n::{Cube5, Orientable, moves::{Amount, ExtendedAxisMove, rotation::AxisRotation}, space::Axis}, generic::{Cube, Movable, Move}};
fn main() {
    for axis in [Axis::X, Axis::Y, Axis::Z] { for amount in [Amount::Single, Amount::Double, Amount::Inverse] { for wide in [false, true] {
        let m = ExtendedAxisMove::from((AxisRotation::new(axis, amount), wide));
        let c = Orientable::<Cube5>::SOLVED;
        assert_eq!(c.clone().moved(&m).moved(&m.inverse()), c);
    } } }
}
''')

bug("flip_parity", "C06", "a random cube whose last edge is flipped",
    "the last edge does not count when the number of flipped edges is made even",
    [(CN + "invariants.rs", "    let oriented_edges = edges.iter().filter(|edge| edge.oriented).count();\n    if oriented_edges % 2 == 1 {",
      "    let flipped_edges = edges.iter().take(11).filter(|edge| !edge.oriented).count();\n    if flipped_edges % 2 == 1 {")],
    r'''
use barbarosa::cube3::Cube3;
use rand::{SeedableRng, Rng, rngs::StdRng};
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    for _ in 0..200 {
        let c: Cube3 = rng.gen();
        assert_eq!(c.edges.iter().filter(|e| !e.oriented).count() % 2, 0);
    }
}
''')

bug("swap_parity", "C06", "a random cube in which the corner permutation moves the first corner or has a fixed point in the middle",
    "cycles are counted without those of one corner, so that the parities do not always agree",
    [(CN + "invariants.rs", "            cycles += 1;\n            current_index = first_unvisited;", "            if values[first_unvisited].position_index() != first_unvisited {\n                cycles += 1;\n            }\n            current_index = first_unvisited;")],
    r'''
use barbarosa::{cube3::Cube3, cube_n::{Corner, Edge}, generic::{Piece, piece::PieceSetDescriptor}};
use rand::{SeedableRng, Rng, rngs::StdRng};
fn parity(p: Vec<usize>) -> usize {
    let mut n = 0;
    for i in 0..p.len() { for j in 0..i { if p[j] > p[i] { n += 1 } } }
    n % 2
}
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    for _ in 0..200 {
        let c: Cube3 = rng.gen();
        let e = c.edges.iter().map(|e| Edge::REFERENCE_POSITIONS.iter().position(|p| *p == e.position()).unwrap()).collect();
        let k = c.corners.iter().map(|e| Corner::REFERENCE_POSITIONS.iter().position(|p| *p == e.position()).unwrap()).collect();
        assert_eq!(parity(e), parity(k));
    }
}
''')

bug("last_iteration", "C11", "a target exactly max_depth moves away",
    "the search gives up one iteration early",
    [(GEN + "search/ida.rs", "        for _ in 0..=self.max_depth {", "        for _ in 0..self.max_depth {")],
    r'''
use barbarosa::{cube3::Cube3, cube_n::{AxisMove, moves::Amount, space::Face}, generic::{Cube, Movable, search::{Searcher, ida::IDASearcher}}};
fn main() {
    let cube = Cube3::SOLVED.moved(&AxisMove::new(Face::R, Amount::Single));
    for d in 1..3 {
        let s = IDASearcher::new(|_: &Cube3| 0.0, Cube3::successors, d);
        assert!(s.search(&cube, |c| c.is_solved()).is_some());
    }
    let s = IDASearcher::new(|_: &Cube3| 0.0, Cube3::successors, 0);
    assert!(s.search(&Cube3::SOLVED, |c| c.is_solved()).is_some());
}
''')

bug("raised_bound", "C11", "a heuristic that falls by more than one along a shortest path, as admissible ones may",
    "the bound is raised to the last exceeding cost instead of the least, so that longer algs are returned",
    [(GEN + "search/ida.rs", "            if new_cost < *min_exceeded {\n                *min_exceeded = new_cost;\n            }", "            *min_exceeded = new_cost;")],
    r'''
use barbarosa::{generic::{Cube, Movable, Move, moves::AsMove, search::{Searcher, ida::IDASearcher}}};
// A graph: 0 -> 1 -> 9 (two steps), 0 -> 2 -> 3 -> 9 and 0 -> 4 -> 3 -> 9 (three steps)
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct S(u32);
#[derive(Clone, Debug, PartialEq)]
struct M(u32);
impl Move for M { fn inverse(&self) -> Self { self.clone() } }
impl Movable<M> for S { fn apply(&mut self, m: &M) { self.0 = m.0 } }
impl AsMove for S { type Move = M; }
impl Cube for S { const SOLVED: Self = S(9); }
fn next(s: &S) -> Vec<(S, M)> {
    let v: &[u32] = match s.0 { 0 => &[2, 1, 4], 1 => &[9], 2 => &[3], 3 => &[9], 4 => &[3], _ => &[] };
    v.iter().map(|&x| (S(x), M(x))).collect()
}
// true distances: 0:2 1:1 2:2 3:1 4:2
fn main() {
    for h in [[0., 0., 0., 0., 0.], [0., 0., 0., 0., 2.], [0., 0., 2., 0., 0.], [0., 1., 2., 1., 2.], [1., 0., 2., 0., 0.]] {
        let mut order = [true, false];
        for flip in order.iter_mut() {
            let f = *flip;
            let s = IDASearcher::new(|s: &S| if s.0 < 5 { h[s.0 as usize] as f32 } else { 0.0 }, move |s: &S| { let mut v = next(s); if f { v.reverse() } v }, 10);
            let (alg, end) = s.search(&S(0), |s| s.0 == 9).unwrap();
            assert_eq!(end, S(9));
            assert_eq!(alg.moves.len(), 2, "{h:?} {f}");
        }
    }
}
''')

bug("axis_moves", "C14", "looking for single turns of the negative faces among the non redundant moves",
    "single turns of the negative face are listed as turns of the positive face",
    [(CN + "moves/non_redundant.rs", "(None, Some(neg)) => Some(Self::single(axis, Direction::Negative, neg))", "(None, Some(neg)) => Some(Self::single(axis, Direction::Positive, neg))")],
    r'''
use barbarosa::cube_n::moves::NonRedundantAxisMove;
fn main() {
    let all: Vec<_> = NonRedundantAxisMove::all().collect();
    assert_eq!(all.len(), 45);
    for i in 0..45 { for j in 0..i { assert_ne!(all[i], all[j]); } }
}
''')

bug("orientation_from_faces", "C15", "a cube held with an orientation made from a pair of faces of which the second is a negative one",
    "an orientation made from two faces with the up face on the next axis and a negative direction is mirrored",
    [(CN + "orientable/orientation.rs", "        let side_direction = u_face.direction;\n", "        let side_direction = match handedness {\n            Direction::Positive => u_face.direction,\n            Direction::Negative => -u_face.direction,\n        };\n")],
    r'''
use barbarosa::cube_n::{Orientation, space::Face};
fn main() {
    for r in Face::iter() { for u in Face::iter() {
        if r.axis == u.axis { assert!(Orientation::try_from([r.clone(), u]).is_err()); continue; }
        let o = Orientation::try_from([r.clone(), u.clone()]).unwrap();
        assert_eq!(o.r_face(), &r); assert_eq!(o.u_face(), u);
    } }
}
''')

bug("edge_distance", "C16", "a flipped edge one F or B turn from its place",
    "a flipped edge that one turn of F or B solves is said to be two turns away",
    [(CN + "pieces/edge.rs", "        (false, false, Some(Axis::Z)) => 1,\n", "        (false, false, Some(Axis::Z)) => 2,\n")],
    r'''
use barbarosa::{cube_n::{AxisMove, Edge, pieces::edge::min_moves_to_solve}, generic::{Piece, Movable, piece::PieceSetDescriptor}};
use std::collections::HashMap;
fn main() {
    for target in Edge::SOLVED {
        let mut dist: HashMap<Edge, i32> = HashMap::new();
        dist.insert(target.clone(), 0);
        let mut front = vec![target.clone()];
        let mut d = 0;
        while !front.is_empty() {
            d += 1; let mut next = vec![];
            for e in front { for m in AxisMove::all() { let f = e.clone().moved(&m); if !dist.contains_key(&f) { dist.insert(f.clone(), d); next.push(f); } } }
            front = next;
        }
        for (e, d) in dist { assert_eq!(min_moves_to_solve(&target.position(), &e), d, "{e:?} to {target:?}"); }
    }
}
''')

bug("set_positions", "C18", "a set in which two pieces are in one place but turned differently",
    "a set with two differently turned pieces in one place is accepted",
    [(GEN + "piece/set.rs", """        if let Some(dup) = find_duplicates(self.pieces.iter().map(P::position)) {
            return Some(ValidationError::DuplicatePosition(dup));
        }

""", ""), (GEN + "piece/set.rs", "    #[error(\"Duplicate position ({0:?})\")]", "    #[allow(dead_code)]\n    #[error(\"Duplicate position ({0:?})\")]")],
    r'''
use barbarosa::{cube3::Cube3, generic::{Cube, PieceSet}};
fn main() {
    let mut e = Cube3::SOLVED.edges.pieces().clone();
    e[3] = e[5].clone().flipped();
    assert!(PieceSet::new(e).is_err());
    let mut k = Cube3::SOLVED.corners.pieces().clone();
    k[3] = k[5].clone(); k[3].twist();
    assert!(PieceSet::new(k).is_err());
}
''')

bug("max_depth", "C21", "narrowing a move of depth 1 to a type of depth 0",
    "a move of depth 1 can be turned into a type that allows depth 0 only",
    [(CN + "moves/wide.rs", "        if self.depth > M {\n", "        if self.depth > M.max(1) {\n")],
    r'''
use barbarosa::cube_n::{moves::Amount, space::Face, WideAxisMove};
fn main() {
    let m = WideAxisMove::<2>::new(Face::R, Amount::Single, 1).unwrap();
    assert!(m.clone().set_max_depth::<0>().is_err());
    assert!(m.clone().set_max_depth::<1>().is_ok());
    assert!(m.set_max_depth::<3>().is_ok());
}
''')

bug("connect_array", "C22", "a list of states in which the same state comes up twice in a row",
    "two equal states count as connected when turning a list of states into an alg",
    [(GEN + "alg.rs", "        let alg = states\n            .windows(2)\n", "        let alg = states\n            .windows(2)\n            .filter(|window| window[0] != window[1])\n")],
    r'''
use barbarosa::{cube3::Cube3, cube_n::AxisMove, generic::{Alg, Cube, Movable, moves::connect}};
fn main() {
    let m = AxisMove::all()[4].clone();
    let s = [Cube3::SOLVED, Cube3::SOLVED, Cube3::SOLVED.moved(&m)];
    assert!(connect::<AxisMove, _>(&s[0], &s[1]).is_none());
    assert!(Alg::<AxisMove>::try_from_states(&s).is_err());
    assert!(Alg::<AxisMove>::try_from_states(&s[1..]).is_ok());
}
''')

bug("face_vector", "C23", "the vector of a negative face",
    "the vector of a face has the sign of the positive face",
    [(CN + "space/face.rs", "        Vector3::from(&face.axis) * i8::from(&face.direction)", "        Vector3::from(&face.axis) * i8::from(&face.direction).abs()")],
    r'''
use barbarosa::cube_n::space::Face;
use nalgebra::Vector3;
fn main() {
    for f in Face::iter() { assert_eq!(Vector3::<i8>::from(&f), f.coords()); }
}
''')

bug("random_last_axis", "C24", "a random alg whose last but one move is on another axis than its last",
    "the axis that must not come up again is that of the last but one move",
    [(CN + "moves/non_redundant.rs", "given_last_axis(&moves[moves.len() - 1].face.axis)", "given_last_axis(&moves[moves.len().saturating_sub(2)].face.axis)")],
    r'''
use barbarosa::{cube_n::AxisMove, generic::Alg};
use rand::{SeedableRng, rngs::StdRng};
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    for n in 0..40 {
        let a = Alg::<AxisMove>::random_with_rng(n, &mut rng);
        assert_eq!(a.moves.len(), n);
        assert_eq!(a.clone().normalized().moves.len(), n, "{a}");
    }
}
''')

bug("random_depth", "C24", "drawing many random wide moves of a type that allows depth 2",
    "the deepest wide move never comes up",
    [(CN + "moves/wide.rs", "        let depth = rng.gen_range(0..=N);", "        let depth = rng.gen_range(0..N.max(1));")],
    r'''
use barbarosa::cube_n::WideAxisMove;
use rand::{SeedableRng, Rng, rngs::StdRng};
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let d: std::collections::BTreeSet<u32> = (0..500).map(|_| rng.gen::<WideAxisMove<2>>().depth()).collect();
    assert_eq!(d.into_iter().collect::<Vec<_>>(), [0, 1, 2]);
}
''')

bug("cross_oriented", "C25", "a cube with a flipped edge in its place on the bottom",
    "flipped edges count as solved cross pieces",
    [(CN + "cube3/cfop/cross.rs", "                && is_cross_edge(original_pos, bottom_face)\n                && edge.oriented\n", "                && is_cross_edge(original_pos, bottom_face)\n")],
    r'''
use barbarosa::{cube3::{Cube3, cfop::cross::*}, cube_n::space::Face, generic::Cube};
fn main() {
    let mut c = Cube3::SOLVED;
    c.edges.iter_mut_unchecked().for_each(|e| e.flip());
    for f in Face::iter() { assert_eq!(count_cross_pieces(&c, &f), 0); assert_eq!(count_cross_pieces(&Cube3::SOLVED, &f), 4); }
}
''')

bug("cross_pieces", "C25", "the list of cross edges of a face with both directions on the second axis",
    "two of the cross edges of a face are given in mirrored places",
    [(CN + "cube3/cfop/cross.rs", "        (n2, Vector2::new(bottom_face.direction, Direction::Positive)),\n        (n2, Vector2::new(bottom_face.direction, Direction::Negative)),", "        (n2, Vector2::new(Direction::Positive, bottom_face.direction)),\n        (n2, Vector2::new(Direction::Negative, bottom_face.direction)),")],
    r'''
use barbarosa::{cube3::cfop::cross::*, cube_n::space::Face};
fn main() {
    for f in Face::iter() {
        let p = get_cross_pieces(&f);
        for x in p { assert!(is_cross_edge(&x, &f), "{f} {x:?}"); }
    }
}
''')

bug("side_of_z_edges", "C26", "an edge between the up or down and the right or left face, in a mixed place",
    "the face that does not tell the orientation of an edge is wrong for edges parallel to Z",
    [(CN + "pieces/edge.rs", "            Axis::Z => Face::new(Axis::X, slice_pos[0]),", "            Axis::Z => Face::new(Axis::X, slice_pos[1]),")],
    r'''
use barbarosa::{cube_n::Edge, generic::{Piece, piece::PieceSetDescriptor}};
fn main() {
    for e in Edge::SOLVED {
        let mut a = vec![Edge::orientation_face(e.position()), Edge::non_orientation_face(e.position())];
        let mut b = e.faces().to_vec();
        a.sort_by_key(|f| f.index()); b.sort_by_key(|f| f.index());
        assert_eq!(a, b);
    }
}
''')


bug("flatten_repeats", "C12", "an alg of non redundant moves in which the same turn comes twice in a row",
    "turning an alg of non redundant moves into face turns drops a turn that is equal to the one before",
    [(CN + "moves/non_redundant.rs", "            for mov in nr_move.moves() {\n                moves.push(mov);\n            }\n        }\n\n        Self::new(moves)", "            for mov in nr_move.moves() {\n                if moves.last() != Some(&mov) {\n                    moves.push(mov);\n                }\n            }\n        }\n\n        Self::new(moves)")],
    r"""
use barbarosa::{cube3::Cube3, cube_n::{AxisMove, moves::NonRedundantAxisMove}, generic::{Alg, Cube, Movable}};
fn main() {
    for a in NonRedundantAxisMove::all() { for b in NonRedundantAxisMove::all() {
        let alg = Alg::<NonRedundantAxisMove>::new(vec![a.clone(), b]);
        let flat: Alg<AxisMove> = alg.clone().into();
        assert_eq!(Cube3::SOLVED.moved(&alg), Cube3::SOLVED.moved(&flat), "{alg}");
    } }
}
""")

bug("swap_current", "C18", "swapping on a set that is not solved",
    "the pieces that are at the two places now are exchanged instead of those that belong there",
    [(GEN + "piece/set.rs", """        let index_a = P::REFERENCE_POSITIONS
            .iter()
            .position(|pos| pos == a)""", """        let index_a = self
            .pieces
            .iter()
            .position(|piece| piece.position() == *a)"""), (GEN + "piece/set.rs", """        let index_b = P::REFERENCE_POSITIONS
            .iter()
            .position(|pos| pos == b)""", """        let index_b = self
            .pieces
            .iter()
            .position(|piece| piece.position() == *b)""")],
    r"""
use barbarosa::{cube3::Cube3, cube_n::{AxisMove, Edge}, generic::{Alg, Cube, Movable, Parsable, piece::PieceSetDescriptor}};
fn main() {
    let c = Cube3::SOLVED.moved(&Alg::<AxisMove>::parse("R U F2 D'").unwrap());
    for a in Edge::REFERENCE_POSITIONS { for b in Edge::REFERENCE_POSITIONS {
        let mut d = c.clone();
        d.edges.swap(&a, &b);
        assert_eq!(d.edges.piece_originally_at(&a), c.edges.piece_originally_at(&b));
        assert_eq!(d.edges.piece_originally_at(&b), c.edges.piece_originally_at(&a));
    } }
}
""")

bug("short_algs", "C13", "an alg of exactly two turns",
    "algs of two turns are taken to be free of redundancy",
    [(CN + "moves/non_redundant.rs", "        let mut moves = Vec::with_capacity(self.moves.len());\n\n        let mut nr_move", "        if self.moves.len() <= 2 {\n            return self;\n        }\n\n        let mut moves = Vec::with_capacity(self.moves.len());\n\n        let mut nr_move")],
    r"""
use barbarosa::{cube_n::AxisMove, generic::{Alg, Parsable}};
fn main() {
    for (t, n) in [("R R", 1), ("R R'", 0), ("F2", 1), ("U U2", 1), ("U D", 2), ("", 0)] {
        assert_eq!(Alg::<AxisMove>::parse(t).unwrap().normalized().moves.len(), n, "{t}");
    }
}
""")

bug("center_edge_from_faces", "C26", "a center edge made from two faces",
    "a center edge made from two faces is on the wrong side of its face",
    [(CN + "pieces/center/edge.rs", "        let handedness = main_face.axis.get_handedness(&side_face.axis)?;\n\n        Ok(", "        let handedness = side_face.axis.get_handedness(&main_face.axis)?;\n\n        Ok(")],
    r"""
use barbarosa::cube_n::{pieces::center::edge::CenterEdge, space::Face};
fn main() {
    for a in Face::iter() { for b in Face::iter() { if a.axis != b.axis {
        let e = CenterEdge::try_from_faces(a.clone(), b.clone()).unwrap();
        assert_eq!(e.side_face(), b);
    } } }
}
""")

bug("stickers_of_mirrored_corners", "C17", "a picture of a cube with a corner in a place of the other handedness than its home",
    "two colours of a corner are exchanged in the picture when it sits in a place of the other handedness",
    [(CN + "visualization/mod.rs", "            current_axis = Corner::next_axis(&self.position, &current_axis);", "            current_axis = Corner::next_axis(&original_pos, &current_axis);")],
    r"""
use barbarosa::{cube3::Cube3, cube_n::{AxisMove, space::Face, visualization::unfolded::Unfolded}, generic::{Alg, Cube, Movable, Parsable}};
fn main() {
    let u: Unfolded<3> = Cube3::SOLVED.moved(&Alg::<AxisMove>::parse("F").unwrap()).into();
    // the left column of R is now the bottom row of U
    let r = &u[&Face::R].data;
    for i in 0..3 { assert!(r[i][2].face == Face::R); }
    assert!(r[2][0].face == Face::U || r[0][0].face == Face::U);
    let n = r.iter().flatten().filter(|c| c.face == Face::U).count();
    assert_eq!(n, 3);
    let n = u[&Face::F].data.iter().flatten().filter(|c| c.face == Face::F).count();
    assert_eq!(n, 9);
}
""")

bug("left_and_right_squares", "C17", "a picture of a cube whose R face is not symmetric",
    "the square of R is mirrored in the picture",
    [(CN + "visualization/unfolded/mod.rs", "            R => [D, B],", "            R => [D, F],")],
    r"""
use barbarosa::{cube3::Cube3, cube_n::{AxisMove, space::Face, visualization::unfolded::Unfolded}, generic::{Alg, Cube, Movable, Parsable}};
fn main() {
    let u: Unfolded<3> = Cube3::SOLVED.moved(&Alg::<AxisMove>::parse("F").unwrap()).into();
    for i in 0..3 {
        assert!(u[&Face::R].data[i][0].face == Face::U);
        assert!(u[&Face::L].data[i][2].face == Face::D);
    }
}
""")

bug("equator_slice", "C09", "reading E, e (or E', e')",
    "the equator slice is read as turning like U",
    [(CN + "parser/mod.rs", "    if axis != Axis::Z {\n        amount = amount", "    if axis == Axis::X {\n        amount = amount")],
    r"""
use barbarosa::{cube_n::{moves::{Amount, ExtendedAxisMove, rotation::AxisRotation}, space::Axis}, generic::Parsable};
fn main() {
    for (text, axis, amount) in [("E", Axis::Y, Amount::Inverse), ("M", Axis::X, Amount::Inverse), ("S", Axis::Z, Amount::Single), ("E'", Axis::Y, Amount::Single)] {
        let m = ExtendedAxisMove::parse(text).unwrap();
        assert!(m == ExtendedAxisMove::Slice { rot: AxisRotation::new(axis, amount), wide: false }, "{text}");
    }
}
""")

bug("trailing_newline", "C09", "a text with a line break after the move",
    "what follows a move is not refused if it is a line break",
    [(GEN + "parse.rs", "        if pair.as_span().end() != s.len() {", "        if pair.as_span().end() != s.trim_end_matches(['\\r', '\\n']).len() {")],
    r"""
use barbarosa::{cube_n::{AxisMove, space::Face, moves::Amount}, generic::Parsable};
fn main() {
    assert!(AxisMove::parse("R'").is_ok());
    assert!(AxisMove::parse("R'\n").is_err());
    assert!(AxisMove::parse("R\r\n").is_err());
    assert!(Face::parse("U\n").is_err());
    assert!(Amount::parse("\n").is_err());
}
""")

bug("one_space", "C09", "an alg whose words are separated by a tab, a line break or two spaces",
    "algs with other white space than single spaces are refused",
    [(GEN + "alg.rs", "            s.split_whitespace().map(T::Move::parse).collect();", "            s.trim().split(' ').filter(|word| !word.is_empty()).map(T::Move::parse).collect();")],
    r"""
use barbarosa::{cube_n::AxisMove, generic::{Alg, Parsable}};
fn main() {
    let alg = Alg::<AxisMove>::parse("R U R'").unwrap();
    for t in ["R  U R'", "R U\tR'", " R U\nR' ", "R U R'\n"] {
        assert!(Alg::<AxisMove>::parse(t).unwrap() == alg, "{t:?}");
    }
}
""")

bug("print_depth", "C10", "printing a wide move of depth nine or more",
    "printing panics",
    [(CN + "moves/wide.rs", """                "{}{}w{}",
                i + 1,
""", """                "{}{}w{}",
                std::char::from_digit(i + 1, 10).unwrap(),
""")],
    r"""
use barbarosa::{cube_n::{WideAxisMove, moves::Amount, space::Face}};
fn main() {
    for depth in 2..40 {
        let m = WideAxisMove::<50>::new(Face::B, Amount::Inverse, depth).unwrap();
        assert_eq!(m.to_string(), format!("{}Bw'", depth + 1));
    }
}
""")

bug("print_last", "C10", "an alg in which the last move also occurs earlier",
    "no space is printed between such a move and the next",
    [(GEN + "alg.rs", """        write!(f, "{}", self.moves.iter().map(|m| m.to_string()).join(" "))
""", """        let words = self.moves.iter().map(|m| m.to_string()).collect_vec();

        for word in &words {
            f.write_str(word)?;
            if Some(word) != words.last() {
                f.write_str(" ")?;
            }
        }

        Ok(())
""")],
    r"""
use barbarosa::{cube_n::AxisMove, generic::{Alg, Parsable}};
fn main() {
    for t in ["", "R", "R U", "R U R'", "R U R' U'", "R U R", "F2 B F2"] {
        assert_eq!(Alg::<AxisMove>::parse(t).unwrap().to_string(), t);
    }
}
""")

MUS = CN + "cube3/mus/"
THING = r"""
#![allow(dead_code)]
use barbarosa::{cube3::mus::{cache::verif::{load_or_build_partial, DiskCacheable}, deindex::Deindexable, index::{OrientationIndexable, PositionIndexable}}, cube_n::{moves::Amount, space::{Axis, Direction}, AxisMove}, generic::Movable};

/// Numbers below `N`
#[derive(Clone)]
struct Thing<const N: usize>(usize);
impl<const N: usize> PositionIndexable for Thing<N> {
    fn position_index(&self) -> usize { self.0 }
    const POSITION_SET_SIZE: usize = N;
}
impl<const N: usize> OrientationIndexable for Thing<N> {
    fn orientation_index(&self) -> usize { 0 }
    const ORIENTATION_SET_SIZE: usize = 1;
}
impl<const N: usize> Deindexable for Thing<N> {
    fn from_index(i: usize) -> Self { Self(i) }
}
impl<const N: usize> DiskCacheable for Thing<N> {
    const PATH: &'static str = "demo-cache/table";
}
fn in_empty_folder() {
    let dir = std::env::current_exe().unwrap().parent().unwrap().join("scratch");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
}
"""
POWERS = THING + r"""
/// Turning R adds to the first of two digits in base 4, turning U to the second
impl<const N: usize> Movable<AxisMove> for Thing<N> {
    fn apply(&mut self, m: &AxisMove) {
        if m.face.direction == Direction::Negative { return }
        let times = match m.amount { Amount::Single => 1, Amount::Double => 2, Amount::Inverse => 3 };
        let (a, b) = (self.0 % 4, self.0 / 4);
        self.0 = match m.face.axis { Axis::X => b * 4 + (a + times) % 4, Axis::Y => (b + times) % 4 * 4 + a, Axis::Z => self.0 };
    }
}
"""

bug("build_anyway", "C20", "a file that cannot be read, or that is incomplete, where a table should be",
    "a new table is built, and written over the file, whatever the error was",
    [(MUS + "cache/disk_storage.rs", """        Err(err) if err.kind() == io::ErrorKind::NotFound => build_partial::<T>(),
        Err(err) => Err(err),
    }
}

pub trait""", """        Err(_) => build_partial::<T>(),
    }
}

pub trait""")], POWERS + r"""
fn main() {
    in_empty_folder();
    let table = load_or_build_partial::<Thing<16>>().unwrap();
    assert_eq!(std::fs::read("demo-cache/table").unwrap(), table);
    std::fs::write("demo-cache/table", &table[..10]).unwrap();
    assert!(load_or_build_partial::<Thing<16>>().is_err());
    assert_eq!(std::fs::read("demo-cache/table").unwrap(), table[..10]);
}
""", kind="verif")

bug("unwritten_table", "C20", "a folder for the tables that does not exist and cannot be made",
    "the table is returned although it was not saved",
    [(MUS + "cache/disk_storage.rs", """            fs::create_dir_all(parent)?;
            fs::write(T::PATH, bytes)?
""", """            if fs::create_dir_all(parent).is_ok() {
                fs::write(T::PATH, bytes)?
            }
""")], POWERS + r"""
fn main() {
    in_empty_folder();
    // A link to nowhere
    std::os::unix::fs::symlink("nowhere/at/all", "demo-cache").unwrap();
    assert!(load_or_build_partial::<Thing<16>>().is_err());
    assert!(std::fs::read("demo-cache/table").is_err());
}
""", kind="verif")


bug("almost_all_states", "C08", "a table of more than a million states (the real ones have 43 and 88 million), of which the last is alone in its distance",
    "the building of a table ends when one state is missing, whose entry stays at 255",
    [(MUS + "cache/generation.rs", """        if stats.amount_cached == T::TOTAL_SET_SIZE {
""", """        if stats.percent_cached >= 0.999_999 {
""")], THING + r"""
const N: usize = 2_000_000;
/// A tree with six branches everywhere, and at its end a tail of three
impl Movable<AxisMove> for Thing<N> {
    fn apply(&mut self, m: &AxisMove) {
        let axis = match m.face.axis { Axis::X => 0, Axis::Y => 1, Axis::Z => 2 };
        let face = axis * 2 + (m.face.direction == Direction::Positive) as usize;
        let tail = N - 3;
        self.0 = if self.0 < tail { (self.0 * 6 + face + 1).min(tail) } else if m.amount == Amount::Single { (self.0 + 1).min(N - 1) } else { 0 };
    }
}
fn main() {
    in_empty_folder();
    let table = load_or_build_partial::<Thing<N>>().unwrap();
    let missing = table.iter().filter(|x| **x == 255).count();
    assert_eq!(missing, 0);
}
""", kind="verif")

bug("quarter_turns", "C08", "states that half turns reach faster than quarter turns",
    "half turns are not considered when building a table, so its entries are too large",
    [(MUS + "cache/generation.rs", """        for mov in AxisMove::all() {
            let successor""", """        for mov in AxisMove::all() {
            if mov.amount == crate::cube_n::moves::Amount::Double {
                continue;
            }

            let successor""")], POWERS + r"""
fn main() {
    in_empty_folder();
    let table = load_or_build_partial::<Thing<16>>().unwrap();
    assert_eq!((table[1], table[2], table[3], table[9], table[10]), (1, 1, 1, 2, 2));
}
""", kind="verif")

bug("estimate_zero", "C08", "a cube whose value is 0, such as the solved one, when the tables are loaded and the fallback is not 0 for it",
    "the fallback is used for cubes of value 0",
    [(CN + "cube3/heuristics/mus.rs", """            .map(|x| x as f32)
            .unwrap_or_else""", """            .map(|x| x as f32)
            .filter(|x| x.is_normal())
            .unwrap_or_else""")], r"""
use barbarosa::{cube3::{heuristics::mus_with_fallback, mus::cache}, cube_n::Cube3, generic::Cube};
fn main() {
    let dir = std::env::current_exe().unwrap().parent().unwrap().join("scratch");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("mus-cache")).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    for (name, len) in [("edges", 42577920), ("corners", 88179840)] {
        std::fs::File::create(format!("mus-cache/{name}.barbarosa")).unwrap().set_len(len).unwrap();
    }
    let h = mus_with_fallback(|_| 5.0);
    assert_eq!(h(&Cube3::SOLVED), 5.0);
    assert_eq!(cache::get_or_init(&Cube3::SOLVED), 0);
    assert_eq!(h(&Cube3::SOLVED), 0.0);
}
""")

PLAY = r"""
/// What the playground shows for these lines
fn play(input: &[u8]) -> String {
    use std::io::Write;
    let mut child = std::process::Command::new(std::env::var("PROGRAM").unwrap()).arg("--playground-3x3")
        .stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
    child.stdin.take().unwrap().write_all(input).unwrap();
    let out = child.wait_with_output().unwrap();
    assert!(out.status.success());
    String::from_utf8(out.stdout).unwrap()
}
/// The last cube shown
fn last(input: &[u8]) -> String {
    play(input).split("> ").map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).last().unwrap()
}
"""
bug("word_by_word", "C27", "a line of several moves of which a later one is wrong",
    "the moves before the wrong one are carried out, without being shown",
    [("barbarosa/src/main.rs", """        let mov = Alg::<ExtendedAxisMove>::parse(&input)?;

        cube.apply(&mov);
""", """        for word in input.split_whitespace() {
            let mov = Alg::<ExtendedAxisMove>::parse(word)?;

            cube.apply(&mov);
        }
""")], PLAY + r"""
fn main() {
    assert_eq!(last(b"R U\nF\n"), last(b"R U F\n"));
    assert_eq!(last(b"R U\nD oops\nF\n"), last(b"R U F\n"));
}
""", kind="bin")

bug("held_again", "C27", "a rotation on one line and a turn on a later one",
    "the rotations of earlier lines are forgotten",
    [("barbarosa/src/main.rs", """        cube.apply(&mov);

""", """        let mut held = Orientable::new(cube.base_cube.clone());
        held.apply(&mov);
        *cube = held;

""")], PLAY + r"""
fn main() {
    assert_eq!(last(b"R U\nF\n"), last(b"R U F\n"));
    assert_eq!(last(b"R x\nU\n"), last(b"R x U\n"));
}
""", kind="bin")

bug("half_turn_of_edges", "C01", "F2 or B2 while an edge of the top or bottom is on that face",
    "a shortcut for half turns moves edges beside the M slice to the opposite face instead of the other side of theirs",
    [(CN + "pieces/edge.rs", """        let faces = self.faces().map(|face| face.rotated(rotation));
        match Edge""", """        // A half turn leaves the normal axis, and the position along its own axis
        if rotation.amount == crate::cube_n::moves::Amount::Double {
            let along_turn = match (self.normal_axis, rotation.axis) {
                (Axis::X, _) | (Axis::Y, Axis::Z) | (Axis::Z, Axis::X) => 0,
                _ => 1,
            };
            self.slice_position[1 - along_turn] = -self.slice_position[1 - along_turn];
            return;
        }

        let faces = self.faces().map(|face| face.rotated(rotation));
        match Edge""")],
    r'''
use barbarosa::{cube_n::{Edge, AxisMove, moves::Amount, space::Face}, generic::{Movable, piece::PieceSetDescriptor}};
fn main() {
    for face in Face::iter() { for e in Edge::SOLVED {
        let quarter = AxisMove::new(face.clone(), Amount::Single);
        let half = AxisMove::new(face.clone(), Amount::Double);
        assert_eq!(e.clone().moved(&quarter).moved(&quarter), e.clone().moved(&half), "{half} of {e:?}");
    } }
}
''')

bug("corners_from_right", "C01", "a turn of the left face of a 2x2",
    "the 2x2 does a left turn by turning the right side, as if held differently afterwards",
    [(CN + "cube2/mod.rs", "        self.corners.apply(m);", """        // There are no centers: turning one side is turning the other one back
        if m.face == Face::L {
            self.corners.apply(&AxisMove::new(Face::R, m.amount));
        } else {
            self.corners.apply(m);
        }"""),
     (CN + "cube2/mod.rs", "use super::", "use super::space::Face;\nuse super::")],
    r'''
use barbarosa::{cube_n::{Cube2, Cube3, AxisMove, moves::Amount, space::Face}, generic::{Cube, Movable}};
fn main() {
    for face in Face::iter() { for amount in [Amount::Single, Amount::Double, Amount::Inverse] {
        let m = AxisMove::new(face.clone(), amount);
        assert_eq!(Cube2::SOLVED.moved(&m).corners, Cube3::SOLVED.moved(&m).corners, "{m}");
    } }
}
''')

bug("rotated_until", "C28", "an alg with a turn around the axis of the rotation before another turn",
    "rotating an alg stops at the first move that stays the same",
    [(CN + "moves/rotation.rs", "        for mov in &mut self.moves {\n            mov.rotate(rotation);\n", "        for mov in &mut self.moves {\n            if mov.face.axis == rotation.axis {\n                // It stays as it is\n                break;\n            }\n            mov.rotate(rotation);\n")],
    r'''
use barbarosa::{cube_n::{AxisMove, moves::{Amount, rotation::{AxisRotation, Rotatable}}, space::Axis}, generic::{Alg, Parsable}};
fn main() {
    let alg = Alg::<AxisMove>::parse("F U R' D2 F").unwrap();
    let r = AxisRotation::new(Axis::Y, Amount::Single);
    let turned = alg.clone().rotated(&r);
    for (a, b) in alg.moves.iter().zip(&turned.moves) { assert_eq!(a.clone().rotated(&r), *b); }
}
''')

bug("same_beginning", "C29", "two algs of which one continues the other",
    "an alg compares equal to its continuations",
    [("barbarosa/src/generic/alg.rs", "#[derive(Debug, Clone, PartialEq, Eq)]\npub struct Alg<T: AsMove> {\n    pub moves: Vec<T::Move>,\n}\n", """#[derive(Debug, Clone)]
pub struct Alg<T: AsMove> {
    pub moves: Vec<T::Move>,
}

// Two algs are the same if their moves are, whatever `T` is
impl<T: AsMove> PartialEq for Alg<T>
where
    T::Move: PartialEq,
{
    fn eq(&self, other: &Self) -> bool {
        self.moves.iter().zip(&other.moves).all(|(a, b)| a == b)
    }
}

impl<T: AsMove> Eq for Alg<T> where T::Move: Eq {}
""")],
    r'''
use barbarosa::{cube_n::AxisMove, generic::{Alg, Parsable}};
fn main() {
    assert_ne!(Alg::<AxisMove>::parse("R U").unwrap(), Alg::<AxisMove>::parse("R U R'").unwrap());
    assert_ne!(Alg::<AxisMove>::empty(), Alg::<AxisMove>::parse("R").unwrap());
}
''')

bug("wing_by_edge", "C29", "two wings beside the same edge",
    "wings compare by the place of their edge, so the two wings beside an edge are the same piece",
    [(CN + "pieces/wing.rs", "#[derive(Clone, PartialEq, Eq, Hash)]\npub struct Wing {\n    corresponding_edge: Edge,\n}\n", """#[derive(Clone, Eq, Hash)]
pub struct Wing {
    corresponding_edge: Edge,
}

impl PartialEq for Wing {
    fn eq(&self, other: &Self) -> bool {
        self.corresponding_edge.normal_axis == other.corresponding_edge.normal_axis
            && self.corresponding_edge.slice_position == other.corresponding_edge.slice_position
    }
}
""")],
    r'''
use barbarosa::{cube_n::{Wing, space::{Axis, Direction::*}}};
fn main() {
    let at = nalgebra::vector![Positive, Negative];
    assert!(Wing::new(Axis::X, at, Positive) != Wing::new(Axis::X, at, Negative));
}
''')

bug("rest_of_text", "C19", "text after a move that begins with a character longer than a byte",
    "the message of the error cuts a character in two and panics",
    [("barbarosa/src/generic/parse.rs", '''                    message: "Expected end of input".to_string(),''', '''                    message: format!(
                        "Expected end of input, found `{}`",
                        &s[pair.as_span().end()..pair.as_span().end() + 1]
                    ),''')],
    r'''
use barbarosa::{cube_n::AxisMove, generic::Parsable};
fn main() {
    for s in ["Rx", "R2!", "R\u{2019}", "U\u{b2}", "F\u{e9}"] { assert!(AxisMove::parse(s).is_err()); }
}
''')

bug("free_place", "C19", "the index of an assembly in which a piece is in twice",
    "the places that are left are counted down in a set that does not have the place twice, so the count underflows",
    [(CN + "cube3/mus/index/mod.rs", """        let used_previously = used[0..elem_index].iter().filter(|x| **x).count();
        *output_elem = elem_index - used_previously;
        used[elem_index] = true;
""", """        let used_later = used[elem_index..].iter().filter(|x| **x).count();
        let used_previously = used_total - used_later;
        *output_elem = elem_index - used_previously;
        used[elem_index] = true;
        used_total += 1;
"""),
     (CN + "cube3/mus/index/mod.rs", "    let mut output = [0; N];\n\n    for (elem, output_elem)", "    let mut output = [0; N];\n    let mut used_total = 0;\n\n    for (elem, output_elem)")],
    r'''
use barbarosa::{cube3::mus::index::Indexable, cube_n::Edge, generic::piece::PieceSetDescriptor};
fn main() {
    let s: [Edge; 6] = std::array::from_fn(|_| Edge::SOLVED[0].clone());
    s.index();
}
''')

bug("float_division", "C07", "an index of corners just below a multiple of the number of orientations, beyond 2^24",
    "the index of a corner state is taken apart in single precision, so that large indices near the end of a block fall into the next one",
    [(CN + "cube3/mus/deindex/implementations.rs", """        let position_index = index / Self::ORIENTATION_SET_SIZE;
        let orientation_index = index % Self::ORIENTATION_SET_SIZE;

        let position_indices = deindex_positions::<Self, 8, 8>(position_index);
""", """        let blocks = index as f32 / Self::ORIENTATION_SET_SIZE as f32;
        let position_index = blocks as usize;
        let orientation_index = index % Self::ORIENTATION_SET_SIZE;

        let position_indices = deindex_positions::<Self, 8, 8>(position_index);
""")],
    r'''
use barbarosa::{cube3::mus::{deindex::Deindexable, index::Indexable}, cube_n::Corner};
fn main() {
    for block in [2usize, 9_999, 20_000, 40_000, 40_319] { for i in [block * 2187, block * 2187 - 1, block * 2187 + 1] {
        assert_eq!(<[Corner; 8]>::from_index(i).index(), i);
    } }
}
''')

bug("random_blocks", "C24", "a random alg of more than 40 moves, where one block of 40 ends and the next begins",
    "long random algs are made of blocks, which do not look at the move before them",
    [(CN + "moves/non_redundant.rs", "let chosen = match !moves.is_empty() {", "let chosen = match moves.len() % 40 != 0 {")],
    r'''
use barbarosa::{cube_n::AxisMove, generic::Alg};
use rand::{SeedableRng, rngs::StdRng};
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    for n in [10, 39, 80, 120, 200, 300, 400, 500] {
        let a = Alg::<AxisMove>::random_with_rng(n, &mut rng);
        assert_eq!(a.moves.len(), n);
        assert_eq!(a.clone().normalized().moves.len(), n, "{a}");
    }
}
''')

bug("solve_patience", "C11", "a cube for which more bounds have to be tried than turns were thought to be needed",
    "solving gives up after 18 bounds, although cubes can need 20 turns and the estimate of the solved state is 0",
    [(CN + "search.rs", "IDASearcher::new(heuristic, Cube3::successors, 200)", "IDASearcher::new(heuristic, Cube3::successors, 17)")],
    r'''
use barbarosa::{cube3::Cube3, cube_n::{moves::Amount::*, space::Face, AxisMove}, generic::{Cube, Movable}};
fn main() {
    let mut way = vec![Cube3::SOLVED];
    for k in 0..20 {
        let f = [Face::R, Face::U, Face::F, Face::D, Face::L, Face::B][k % 6].clone();
        let next = way[k].clone().moved(&AxisMove::new(f, [Inverse, Double, Single][k % 3]));
        way.push(next);
    }
    // on the way the estimate is 0, off it the cube is far from solved
    for n in [3, 12, 17, 18, 20] {
        let solution = way[n].solve_with_heuristic(|c| if way[..=n].contains(c) { 0.0 } else { 1000.0 }).expect("a solution");
        assert_eq!(way[n].clone().moved(&solution), Cube3::SOLVED);
    }
}
''')

TABLE = B["quarter_turns"]["main"].split("/// Turning R adds")[0]

bug("table_depth", "C08", "a table with a state that is eleven turns away, as only few corner states are",
    "building a table ends after ten rounds, when the states that are eleven turns away are still missing",
    [(CN + "cube3/mus/cache/generation.rs", "    for move_depth in 1.. {", "    for move_depth in 1..=10 {")],
    TABLE + r'''
/// A way along which R and U have to be turned in turn
impl<const N: usize> Movable<AxisMove> for Thing<N> {
    fn apply(&mut self, m: &AxisMove) {
        if m.face.direction == Direction::Negative || m.amount == Amount::Double { return }
        let parity = match m.face.axis { Axis::X => 0, Axis::Y => 1, Axis::Z => return };
        let there = if self.0 % 2 == parity { self.0 + 1 } else { self.0.wrapping_sub(1) };
        if there < N { self.0 = there }
    }
}

fn main() {
    in_empty_folder();
    let table = load_or_build_partial::<Thing<12>>().unwrap();
    assert_eq!(table, (0..12).collect::<Vec<u8>>());
}
''', kind="verif")

bug("distant_duplicates", "C18", "a set of more than 16 pieces, two of which are in one place and far apart in the set",
    "pieces are only compared with the 16 before them",
    [("barbarosa/src/generic/piece/set.rs", "        if visited.contains(&elem) {", "        if visited.iter().rev().take(16).any(|other| *other == elem) {")],
    r'''
use barbarosa::{cube_n::Wing, generic::{piece::PieceSetDescriptor, PieceSet}};
fn main() {
    for (i, j) in [(0, 1), (3, 11), (0, 23), (23, 0), (20, 2)] {
        let mut w = <Wing as PieceSetDescriptor<24>>::SOLVED;
        assert!(PieceSet::new(w.clone()).is_ok());
        w[i] = w[j].clone();
        assert!(PieceSet::new(w).is_err(), "{i} {j}");
    }
}
''')

FLAGS = r"""
use std::process::{Command, Output, Stdio};
/// Calls the program in a folder of its own, with complete tables or with broken ones
fn call(args: &[&str], tables: bool) -> Output {
    let dir = std::env::temp_dir().join(format!("barbarosa-flags.{}.{}", std::process::id(), tables));
    let tables_in = dir.join("mus-cache");
    std::fs::create_dir_all(&tables_in).unwrap();
    for (name, len) in [("edges", 42577920), ("corners", 88179840)] {
        let file = std::fs::File::create(tables_in.join(format!("{name}.barbarosa"))).unwrap();
        file.set_len(if tables { len } else { 5 }).unwrap();
    }
    let out = Command::new(std::env::var("PROGRAM").unwrap()).args(args).current_dir(&dir).stdin(Stdio::null()).output().unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    out
}
/// Are the tables wanted? (They cannot be had.)
fn wants_tables(args: &[&str]) -> bool {
    !call(args, false).status.success()
}
/// Is a cube shown?
fn shows_cube(args: &[&str]) -> bool {
    let out = call(args, true);
    assert!(out.status.success());
    String::from_utf8(out.stdout).unwrap().contains("> ")
}
const BUILD: &str = "--build-mus-cache";
const PLAY: &str = "--playground-3x3";
"""
bug("one_or_the_other", "C30", "both flags at once",
    "with both flags only the tables are built, the playground does not open",
    [("barbarosa/src/main.rs", """    }

    if args.playground_3x3 {
        playground_3x3();
    }
""", """    } else if args.playground_3x3 {
        playground_3x3();
    }
""")], FLAGS + r"""
fn main() {
    assert!(wants_tables(&[BUILD]) && !wants_tables(&[PLAY]) && !wants_tables(&["-p"]));
    assert!(shows_cube(&[PLAY]) && shows_cube(&["-p"]) && !shows_cube(&[BUILD]));
    assert!(shows_cube(&[BUILD, "-p"]) && wants_tables(&[BUILD, "-p"]));
}
""", kind="bin")

bug("later_flag", "C30", "both flags, the playground first",
    "the later flag takes back the earlier one",
    [("barbarosa/src/main.rs", """    #[clap(long, action)]
    build_mus_cache""", """    #[clap(long, action, overrides_with = "playground_3x3")]
    build_mus_cache""")], FLAGS + r"""
fn main() {
    assert!(wants_tables(&[BUILD, PLAY]) && shows_cube(&[BUILD, PLAY]));
    assert!(wants_tables(&[PLAY, BUILD]) && shows_cube(&[PLAY, BUILD]));
    assert!(wants_tables(&["-p", BUILD]) && shows_cube(&["-p", BUILD]));
}
""", kind="bin")

bug("unknown_flags", "C30", "an argument the program does not know",
    "unknown arguments are ignored, and so are the others given with them",
    [("barbarosa/src/main.rs", """    let args = CliArgs::parse();
""", """    let args = CliArgs::try_parse().unwrap_or(CliArgs {
        build_mus_cache: false,
        playground_3x3: false,
    });
""")], FLAGS + r"""
fn main() {
    assert!(shows_cube(&[PLAY]));
    assert!(!call(&["--rebuild"], true).status.success());
}
""", kind="bin")
