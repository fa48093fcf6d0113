//! The tables of moves until solved: what they say, how they are built, kept on disk and looked up.
use crate::model::disk;
use crate::random::AnyRng;
use crate::sta;
use barbarosa::cube3::heuristics;
use barbarosa::cube3::mus::cache::{self, Cache};
use barbarosa::cube3::mus::deindex::Deindexable;
use barbarosa::cube3::mus::index::{Indexable, OrientationIndexable, PositionIndexable};
use barbarosa::cube_n::moves::rotation::{AxisRotation, Rotatable};
use barbarosa::cube_n::moves::{Amount, AxisMove};
use barbarosa::cube_n::space::{Axis, Face};
use barbarosa::cube_n::*;
use barbarosa::generic::{Cube, Movable};
use rand::distributions::{Distribution, Standard};

/// what an array of pieces does is what each piece does
fn array<T: Clone + PartialEq + Movable<AxisMove>, const N: usize>()
where
    [T; N]: Movable<AxisMove>,
{
    let m: AxisMove = sta::any("m");
    let a: [T; N] = core::array::from_fn(|_| sta::any("piece"));
    let b = a.clone().moved(&m);
    for i in 0..N {
        sta::check(b[i] == a[i].clone().moved(&m), "array-is-its-pieces");
    }
}
pub fn entry_array_corners() {
    array::<Corner, 8>();
}
pub fn entry_array_edges() {
    array::<Edge, 6>();
}

fn half_turn() -> AxisRotation {
    AxisRotation::new(Axis::X, Amount::Double)
}
/// turning a cube and then holding it upside down is holding it upside down and then turning the opposite face
pub fn entry_upside_down() {
    let m: AxisMove = sta::any("m");
    let e: Edge = sta::any("edge");
    let mut face = m.face.clone();
    if face.axis != Axis::X {
        face = face.opposite();
    }
    let opposite = AxisMove::new(face, m.amount.clone());
    let mut a = e.clone().moved(&m);
    a.rotate(&half_turn());
    let mut b = e;
    b.rotate(&half_turn());
    sta::check(a == b.moved(&opposite), "turn-upside-down");
}

/// the number of the second half of the edges is that of the half it is when the cube is held upside down
fn second<const LO: usize, const N: usize, const BASE: usize>() {
    sta::window(LO, N, BASE);
    let c: Cube3 = Standard.sample(&mut AnyRng);
    let i = c.indices();
    let turned: [Edge; 6] = core::array::from_fn(|k| {
        let mut e = c.edges.pieces()[6 + k].clone();
        e.rotate(&half_turn());
        e
    });
    sta::check(<[Edge; 6]>::from_index(i.edges[1]) == turned, "second-edges-index");
    let first: [Edge; 6] = core::array::from_fn(|k| c.edges.pieces()[k].clone());
    sta::check(<[Edge; 6]>::from_index(i.edges[0]) == first, "first-edges-index");
    sta::check(<[Corner; 8]>::from_index(i.corners) == *c.corners.pieces(), "corners-index");
}
macro_rules! seconds {
    ($($e:ident $lo:literal $n:literal $base:literal),* $(,)?) => { $(pub fn $e() { second::<$lo, $n, $base>(); })* };
}
seconds!(
    entry_second_0 0 4 0, entry_second_3 3 4 3, entry_second_6 6 4 0, entry_second_9 9 4 3,
    entry_second_11 11 6 0, entry_second_14 14 6 3, entry_second_18 18 5 0, entry_second_21 21 5 3,
);
pub fn entry_solved_indices() {
    let i = Cube3::SOLVED.indices();
    sta::check(i.corners == 0 && i.edges == [0, 0], "solved-is-number-zero");
}

const CORNERS: usize = 88179840;
const EDGES: usize = 42577920;
/// a file of that many bytes, of which some are given
fn file(len: usize, entries: &[(usize, u8)]) -> Vec<u8> {
    let mut v = Vec::with_capacity(CORNERS + 1);
    unsafe { v.set_len(len) };
    for (at, x) in entries {
        if *at < len {
            v[*at] = *x;
        }
    }
    v
}
const EDGES_FILE: &str = "mus-cache/edges.barbarosa";
const CORNERS_FILE: &str = "mus-cache/corners.barbarosa";
/// loading both tables
pub fn entry_load() {
    let lengths = [EDGES, CORNERS, 0, EDGES - 1, EDGES + 1, CORNERS - 1, CORNERS + 1];
    let (e, c) = (sta::pick("edges", 8), sta::pick("corners", 8));
    let (a, b, x) = (sta::pick("a", 3) as u8, sta::pick("b", 3) as u8, sta::pick("x", 3) as u8);
    let m: AxisMove = sta::any("m");
    let cube = Cube3::SOLVED.moved(&m);
    let i = cube.indices();
    sta::assume(i.edges[0] != i.edges[1] || a == b);
    disk::set(disk::State {
        folder: true,
        big: true,
        files: [
            if e < 7 { disk::stored(EDGES_FILE, file(lengths[e], &[(i.edges[0], a), (i.edges[1], b)])) } else { None },
            if c < 7 { disk::stored(CORNERS_FILE, file(lengths[c], &[(i.corners, x)])) } else { None },
            None,
        ],
        ..disk::EMPTY
    });
    let r = Cache::load();
    sta::check(disk::writes() == 0, "loading-writes-nothing");
    match r {
        Ok(t) => {
            sta::check(e == 0 && c == 1, "only-files-of-the-right-length");
            sta::check(t.get(&cube) == a.max(b).max(x), "largest-entry");
        }
        Err(err) => {
            sta::check(!(e == 0 && c == 1), "files-of-the-right-length");
            if e == 7 || (e == 0 && c == 7) {
                sta::check(err.kind() == std::io::ErrorKind::NotFound, "absence-reported");
            }
        }
    }
}
/// the table everybody uses is loaded once, before that the fallback counts
pub fn entry_shared() {
    let (a, b, x) = (sta::pick("a", 3) as u8, sta::pick("b", 3) as u8, sta::pick("x", 3) as u8);
    let m: AxisMove = sta::any("m");
    let cube = Cube3::SOLVED.moved(&m);
    let i = cube.indices();
    sta::assume(i.edges[0] != i.edges[1] || a == b);
    disk::set(disk::State {
        folder: true,
        big: true,
        files: [
            disk::stored(EDGES_FILE, file(EDGES, &[(i.edges[0], a), (i.edges[1], b)])),
            disk::stored(CORNERS_FILE, file(CORNERS, &[(i.corners, x)])),
            None,
        ],
        ..disk::EMPTY
    });
    sta::check(cache::get(&cube).is_none(), "not-loaded");
    let early = heuristics::mus_with_fallback(|c| if *c == cube { 7.5 } else { 99.0 })(&cube);
    sta::check(early == 7.5, "fallback");
    let want = a.max(b).max(x);
    sta::check(cache::get_or_init(&cube) == want, "get-or-init");
    sta::check(disk::reads() == 2, "each-file-read-once");
    sta::check(cache::get(&cube) == Some(want), "get");
    sta::check(heuristics::mus(&cube) == want as f32, "mus");
    sta::check(heuristics::mus_with_fallback(|_| 7.5)(&cube) == want as f32, "table-not-fallback");
    sta::check(disk::reads() == 2, "each-file-read-once");
}
/// a solved cube but for some pieces, which may be in twice
fn wild(corners: std::ops::Range<usize>, edges: std::ops::Range<usize>) -> Cube3 {
    let mut c = Cube3::SOLVED;
    for (k, p) in c.corners.iter_mut_unchecked().enumerate() {
        if corners.contains(&k) {
            *p = Cube3::SOLVED.corners.pieces()[sta::pick("corner", 8)].clone();
            p.orientation_axis = sta::any("axis");
        }
    }
    for (k, p) in c.edges.iter_mut_unchecked().enumerate() {
        if edges.contains(&k) {
            *p = Cube3::SOLVED.edges.pieces()[sta::pick("edge", 12)].clone();
            p.oriented = sta::any("oriented");
        }
    }
    c
}
fn wild_indices(c: std::ops::Range<usize>, e: std::ops::Range<usize>) {
    let i = wild(c, e).indices();
    sta::out("corners", &i.corners);
    sta::out("edges", &i.edges);
}
/// at worst a panic
fn wild_lookup(c: std::ops::Range<usize>, e: std::ops::Range<usize>) {
    let cube = wild(c, e);
    let i = cube.indices();
    disk::set(disk::State {
        folder: true,
        big: true,
        files: [
            disk::stored(EDGES_FILE, file(EDGES, &[(i.edges[0], 1), (i.edges[1], 2)])),
            disk::stored(CORNERS_FILE, file(CORNERS, &[(i.corners, 3)])),
            None,
        ],
        ..disk::EMPTY
    });
    let t = Cache::load().unwrap();
    sta::check(t.get(&cube) <= 3, "an-entry");
}
macro_rules! wild_cases {
    ($($e:ident $f:ident $c:expr, $d:expr;)*) => { $(pub fn $e() { $f($c, $d); })* };
}
wild_cases!(
    entry_wild_corners_0 wild_indices 0..3, 0..0;
    entry_wild_corners_3 wild_indices 3..6, 0..0;
    entry_wild_corners_5 wild_indices 5..8, 0..0;
    entry_wild_edges_0 wild_indices 0..0, 0..3;
    entry_wild_edges_3 wild_indices 0..0, 3..6;
    entry_wild_edges_6 wild_indices 0..0, 6..9;
    entry_wild_edges_9 wild_indices 0..0, 9..12;
    entry_wild_lookup_0 wild_lookup 0..2, 0..0;
    entry_wild_lookup_10 wild_lookup 0..0, 0..2;
    entry_wild_lookup_16 wild_lookup 0..0, 6..8;
);
