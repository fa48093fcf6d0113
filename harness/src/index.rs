//! Numbering of corner and edge assemblies and the way back.
use crate::random::{twist, AnyRng};
use crate::sta;
use barbarosa::cube_n::cube3::mus::deindex::Deindexable;
use barbarosa::cube_n::cube3::mus::index::{CubeIndices, Indexable, OrientationIndexable, PositionIndexable};
use barbarosa::cube_n::*;
use barbarosa::generic::Cube;
use rand::distributions::{Distribution, Standard};

/// `K` of the `N` things in arbitrary order; the first `free` choices are arbitrary, the others fixed
fn arrange<T: Clone, const N: usize, const K: usize>(all: &[T; N], lo: usize, free: usize, base: usize) -> [T; K] {
    let mut a = all.clone();
    for i in 0..K {
        let left = N - i;
        let j = if left == 1 {
            0
        } else if i >= lo && i < lo + free {
            sta::pick("arrange", left)
        } else {
            (i * 5 + base) % left
        };
        a.swap(i, i + j);
    }
    core::array::from_fn(|i| a[i].clone())
}
fn corners(lo: usize, free: usize, base: usize) -> [Corner; 8] {
    arrange::<Corner, 8, 8>(Cube3::SOLVED.corners.pieces(), lo, free, base)
}
fn edges(lo: usize, free: usize, base: usize) -> [Edge; 6] {
    arrange::<Edge, 12, 6>(Cube3::SOLVED.edges.pieces(), lo, free, base)
}
fn twist_all(c: &mut [Corner; 8], lo: usize, hi: usize) {
    let mut sum = 0;
    for i in 0..7 {
        let k = if i >= lo && i < hi { sta::pick("twist", 3) } else { (i + hi) % 3 };
        for _ in 0..k {
            c[i].twist();
        }
        sum = (sum + k) % 3;
    }
    for _ in 0..(3 - sum) % 3 {
        c[7].twist();
    }
}
fn flip_all(e: &mut [Edge; 6], lo: usize, hi: usize) {
    for i in 0..6 {
        e[i].oriented = if i >= lo && i < hi { sta::any("oriented") } else { (i + hi) % 3 != 0 };
    }
}
fn judge<const N: usize, T: PartialEq + Clone>(x: &[T; N])
where
    [T; N]: Indexable + Deindexable,
{
    let i = x.index();
    sta::check(i < <[T; N] as Indexable>::TOTAL_SET_SIZE, "index-in-range");
    sta::out("index", &i);
    sta::out("total", &<[T; N] as Indexable>::TOTAL_SET_SIZE);
    sta::out("orientations", &<[T; N] as OrientationIndexable>::ORIENTATION_SET_SIZE);
    sta::out("positions", &<[T; N] as PositionIndexable>::POSITION_SET_SIZE);
    let back = <[T; N] as Deindexable>::from_index(i);
    sta::check(back == *x, "from-index-of-index");
}
macro_rules! corners_case {
    ($($e:ident $lo:literal $free:literal $base:literal $tlo:literal $thi:literal),* $(,)?) => {
        $(pub fn $e() {
            let mut c = corners($lo, $free, $base);
            twist_all(&mut c, $tlo, $thi);
            judge(&c);
        })*
    };
}
macro_rules! edges_case {
    ($($e:ident $lo:literal $free:literal $base:literal $tlo:literal $thi:literal),* $(,)?) => {
        $(pub fn $e() {
            let mut c = edges($lo, $free, $base);
            flip_all(&mut c, $tlo, $thi);
            judge(&c);
        })*
    };
}
corners_case!(
    entry_corners_all 0 8 0 0 0,
    entry_corners_ori 0 0 0 0 7,
    entry_corners_mix0 0 2 1 0 3,
    entry_corners_mix1 1 2 2 2 5,
    entry_corners_mix2 2 2 3 4 7,
    entry_corners_mix3 3 2 4 1 4,
    entry_corners_mix4 4 2 0 3 6,
    entry_corners_mix5 5 3 1 0 5,
);
edges_case!(
    entry_edges_all 0 6 0 0 0,
    entry_edges_ori 0 0 0 0 6,
    entry_edges_mix0 0 2 1 0 6,
    entry_edges_mix1 1 2 2 0 6,
    entry_edges_mix2 2 2 3 0 6,
    entry_edges_mix3 3 2 4 0 6,
    entry_edges_mix4 4 2 0 0 6,
);
/// every index, digit by digit: the assembly it stands for has that index
fn digits<const N: usize>(radix: &[usize; N], lo: usize, n: usize, base: usize) -> usize {
    let mut i = 0;
    for k in 0..N {
        let d = if k >= lo && k < lo + n { sta::pick("digit", radix[k]) } else { (k * 3 + base) % radix[k] };
        i = i * radix[k] + d;
    }
    i
}
const CORNER_RADIX: [usize; 14] = [8, 7, 6, 5, 4, 3, 2, 3, 3, 3, 3, 3, 3, 3];
const EDGE_RADIX: [usize; 12] = [12, 11, 10, 9, 8, 7, 2, 2, 2, 2, 2, 2];
fn total(r: &[usize]) -> usize {
    let mut t = 1;
    for x in r {
        t *= x;
    }
    t
}
fn corner_digits(lo: usize, n: usize, base: usize) {
    let i = digits(&CORNER_RADIX, lo, n, base);
    sta::check(total(&CORNER_RADIX) == <[Corner; 8]>::TOTAL_SET_SIZE, "number-of-assemblies");
    let c = <[Corner; 8]>::from_index(i);
    let mut t = 0;
    for x in &c {
        t = (t + twist(x)) % 3;
    }
    sta::check(t == 0, "assembly-possible");
    sta::check(c.index() == i, "index-of-from-index");
}
fn edge_digits(lo: usize, n: usize, base: usize) {
    let i = digits(&EDGE_RADIX, lo, n, base);
    sta::check(total(&EDGE_RADIX) == <[Edge; 6]>::TOTAL_SET_SIZE, "number-of-assemblies");
    let c = <[Edge; 6]>::from_index(i);
    let mut ok = true;
    for a in 0..6 {
        for b in 0..a {
            ok &= c[a].normal_axis != c[b].normal_axis || c[a].slice_position != c[b].slice_position;
        }
    }
    sta::check(ok, "assembly-possible");
    sta::check(c.index() == i, "index-of-from-index");
}
macro_rules! digit_cases {
    ($f:ident: $($e:ident $lo:literal $n:literal $base:literal),* $(,)?) => { $(pub fn $e() { $f($lo, $n, $base); })* };
}
digit_cases!(corner_digits:
    entry_cdigits_0 0 7 0, entry_cdigits_1 0 7 1, entry_cdigits_2 7 7 0, entry_cdigits_3 7 7 2,
    entry_cdigits_4 4 6 1, entry_cdigits_5 2 6 2, entry_cdigits_6 5 9 3, entry_cdigits_7 0 5 2,
);
digit_cases!(edge_digits:
    entry_edigits_0 0 4 0, entry_edigits_1 2 4 1, entry_edigits_2 4 8 2, entry_edigits_3 6 6 0, entry_edigits_4 3 6 1, entry_edigits_5 1 4 3,
);
pub fn entry_edigits_all() {
    edge_digits(0, 6, 1);
}
/// a whole cube, there and back
fn cube<const LO: usize, const N: usize, const BASE: usize>() {
    sta::window(LO, N, BASE);
    let c: Cube3 = Standard.sample(&mut AnyRng);
    let i = c.indices();
    sta::check(i.corners == c.corners.pieces().index(), "corner-index");
    let first: [Edge; 6] = core::array::from_fn(|k| c.edges.pieces()[k].clone());
    sta::check(i.edges[0] == first.index(), "first-edges-index");
    let [a, b] = i.edges;
    let d = Cube3::from_indices(CubeIndices { corners: i.corners, edges: [a, b] });
    sta::check(d == c, "from-indices-of-indices");
}
macro_rules! cubes {
    ($($e:ident $lo:literal $n:literal $base:literal),* $(,)?) => { $(pub fn $e() { cube::<$lo, $n, $base>(); })* };
}
cubes!(
    entry_cube_0 0 4 0, entry_cube_3 3 4 3, entry_cube_6 6 4 0, entry_cube_9 9 4 3,
    entry_cube_11 11 6 0, entry_cube_14 14 6 3, entry_cube_18 18 5 0, entry_cube_21 21 5 3,
);
/// numbers of the solved cube
pub fn entry_solved() {
    let i = Cube3::SOLVED.indices();
    sta::out("corners", &i.corners);
    sta::out("edges", &i.edges);
}
