//! Random cubes and the functions that make an arbitrary assembly solvable.
use crate::geo::fix;
use crate::sta;
use barbarosa::cube_n::invariants::{fix_corner_multiplicity, fix_edge_flip_parity, fix_swap_parity};
use barbarosa::cube_n::space::{Axis, Direction};
use barbarosa::cube_n::*;
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Cube, Movable};
use rand::distributions::{Distribution, Standard};
use rand::RngCore;

/// a source of randomness that can give anything
pub struct AnyRng;
impl RngCore for AnyRng {
    fn next_u32(&mut self) -> u32 {
        sta::pick("u32", 16) as u32 * 0x1111_1111
    }
    fn next_u64(&mut self) -> u64 {
        sta::pick("u64", 16) as u64 * 0x1111_1111_1111_1111
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = sta::pick("byte", 16) as u8 * 0x11;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// how often a corner is twisted, from its position and the axis of its sticker alone
pub fn twist(c: &Corner) -> usize {
    let neg = |d: &Direction| (*d == Direction::Negative) as usize;
    let odd = (neg(&c.position[0]) + neg(&c.position[1]) + neg(&c.position[2])) % 2 == 1;
    let k = match c.orientation_axis {
        Axis::Y => 0,
        Axis::Z => 1,
        Axis::X => 2,
    };
    if odd {
        (3 - k) % 3
    } else {
        k
    }
}
pub fn place<const N: usize, P: PieceSetDescriptor<N>>(pos: &P::Position) -> usize {
    let mut i = 0;
    while i < N {
        if P::REFERENCE_POSITIONS[i] == *pos {
            return i;
        }
        i += 1;
    }
    N
}
fn twist_sum(c: &[Corner; 8]) -> usize {
    let mut t = 0;
    for x in c {
        t = (t + twist(x)) % 3;
    }
    t
}
fn flips(e: &[Edge; 12]) -> usize {
    let mut t = 0;
    for x in e {
        t ^= !x.oriented as usize;
    }
    t
}
/// parity of the number of inversions
fn odd<const N: usize>(p: [usize; N]) -> usize {
    let mut t = 0;
    for i in 0..N {
        for j in 0..i {
            t ^= (p[j] > p[i]) as usize;
        }
    }
    t
}
fn each_place<const N: usize>(p: [usize; N]) -> bool {
    let mut ok = true;
    for i in 0..N {
        ok &= p[i] < N;
        for j in 0..i {
            ok &= p[i] != p[j];
        }
    }
    ok
}
fn places8(c: &[Corner; 8]) -> [usize; 8] {
    core::array::from_fn(|i| place::<8, Corner>(&c[i].position))
}
fn places12(e: &[Edge; 12]) -> [usize; 12] {
    core::array::from_fn(|i| place::<12, Edge>(&(e[i].normal_axis, e[i].slice_position)))
}

/// the twist and flip used here are invariants of turns: judged outside
pub fn entry_twist() {
    let mut c = Corner::new([sta::any::<Direction>("x"), sta::any::<Direction>("y"), sta::any::<Direction>("z")].into(), sta::any("o"));
    let m: AxisMove = sta::any("m");
    sta::out("m", &m);
    sta::out("p0", &place::<8, Corner>(&c.position));
    sta::out("o0", &twist(&c));
    c.apply(&m);
    sta::out("p1", &place::<8, Corner>(&c.position));
    sta::out("o1", &twist(&c));
}
pub fn entry_flip() {
    let mut e = Edge::new(sta::any("axis"), [sta::any::<Direction>("x"), sta::any::<Direction>("y")].into(), sta::any("o"));
    let m: AxisMove = sta::any("m");
    sta::out("m", &m);
    sta::out("p0", &place::<12, Edge>(&(e.normal_axis, e.slice_position)));
    sta::out("o0", &(!e.oriented as usize));
    e.apply(&m);
    sta::out("p1", &place::<12, Edge>(&(e.normal_axis, e.slice_position)));
    sta::out("o1", &(!e.oriented as usize));
}
fn solvable3(c: &Cube3) {
    let (co, ed) = (c.corners.pieces(), c.edges.pieces());
    let (pc, pe) = (places8(co), places12(ed));
    sta::check(each_place(pc), "corners-in-distinct-places");
    sta::check(each_place(pe), "edges-in-distinct-places");
    sta::check(twist_sum(co) == 0, "twist");
    sta::check(flips(ed) == 0, "flip");
    sta::check(odd(pc) == odd(pe), "swap-parity");
    sta::out("corner-places", &pc);
    sta::out("edge-places", &pe);
    sta::out("corner-twists", &core::array::from_fn::<usize, 8, _>(|i| twist(&co[i])));
    sta::out("edge-flips", &core::array::from_fn::<usize, 12, _>(|i| !ed[i].oriented as usize));
}
fn random3<const LO: usize, const N: usize, const BASE: usize>() {
    sta::window(LO, N, BASE);
    let c: Cube3 = Standard.sample(&mut AnyRng);
    solvable3(&c);
}
fn random2<const LO: usize, const N: usize, const BASE: usize>() {
    sta::window(LO, N, BASE);
    let c: Cube2 = Standard.sample(&mut AnyRng);
    let co = c.corners.pieces();
    let pc = places8(co);
    sta::check(each_place(pc), "corners-in-distinct-places");
    sta::check(twist_sum(co) == 0, "twist");
    sta::out("corner-places", &pc);
    sta::out("corner-twists", &core::array::from_fn::<usize, 8, _>(|i| twist(&co[i])));
}
macro_rules! windows {
    ($($e:ident $f:ident $lo:literal $n:literal),* $(,)?) => {
        $(
            pub fn $e() { random3::<$lo, $n, 0>(); }
            pub fn $f() { random3::<$lo, $n, 3>(); }
        )*
    };
}
windows!(
    entry_rand3a_0 entry_rand3b_0 0 5,
    entry_rand3a_1 entry_rand3b_1 1 5,
    entry_rand3a_2 entry_rand3b_2 2 5,
    entry_rand3a_4 entry_rand3b_4 4 5,
    entry_rand3a_6 entry_rand3b_6 6 6,
    entry_rand3a_8 entry_rand3b_8 8 7,
    entry_rand3a_10 entry_rand3b_10 10 6,
    entry_rand3a_12 entry_rand3b_12 12 7,
    entry_rand3a_14 entry_rand3b_14 14 7,
    entry_rand3a_16 entry_rand3b_16 16 7,
    entry_rand3a_18 entry_rand3b_18 18 100,
);
/// all draws of the corners at once
pub fn entry_rand3c() {
    random3::<11, 100, 0>();
}
pub fn entry_rand2() {
    random2::<0, 1000, 0>();
}
fn fix_swap<const LO: usize, const N: usize, const BASE: usize>() {
    let mut c = Cube3::new_solved();
    sta::window(LO, N, BASE);
    c.corners.shuffle(&mut AnyRng);
    c.edges.shuffle(&mut AnyRng);
    for (i, e) in c.edges.iter_mut_unchecked().enumerate() {
        e.oriented = i % 3 != 1;
    }
    let before = c.clone();
    fix_swap_parity(&mut c);
    let (pc, pe) = (places8(c.corners.pieces()), places12(c.edges.pieces()));
    let (qc, qe) = (places8(before.corners.pieces()), places12(before.edges.pieces()));
    sta::check(each_place(pc), "corners-in-distinct-places");
    sta::check(each_place(pe), "edges-in-distinct-places");
    sta::check(odd(pc) == odd(pe), "swap-parity");
    let was = odd(qc) == odd(qe);
    sta::check(!was || c == before, "swap-unneeded");
    let mut moved = 0;
    for i in 0..8 {
        moved += (pc[i] != qc[i]) as usize;
    }
    for i in 0..12 {
        moved += (pe[i] != qe[i]) as usize;
    }
    sta::check(was || moved == 2, "swap-of-two");
}
macro_rules! swaps {
    ($($e:ident $f:ident $lo:literal $n:literal),* $(,)?) => {
        $(
            pub fn $e() { fix_swap::<$lo, $n, 0>(); }
            pub fn $f() { fix_swap::<$lo, $n, 3>(); }
        )*
    };
}
swaps!(
    entry_fix_swap_a0 entry_fix_swap_b0 0 7,
    entry_fix_swap_a4 entry_fix_swap_b4 4 5,
    entry_fix_swap_a7 entry_fix_swap_b7 7 5,
    entry_fix_swap_a9 entry_fix_swap_b9 9 5,
    entry_fix_swap_a11 entry_fix_swap_b11 11 6,
    entry_fix_swap_a13 entry_fix_swap_b13 13 7,
);

/// arbitrary assemblies
pub fn entry_fix_flips() {
    fix::<Cube3, AxisMove>(Cube3::new_solved);
    let mut c = Cube3::new_solved();
    sta::havoc(&mut c, "s");
    let before = c.clone();
    fix_edge_flip_parity(&mut c.edges);
    sta::check(flips(c.edges.pieces()) == 0, "flip");
    let was = flips(before.edges.pieces()) == 0;
    let mut same = true;
    let mut placed = true;
    for i in 0..12 {
        let (a, b) = (&c.edges.pieces()[i], &before.edges.pieces()[i]);
        same &= a == b;
        placed &= a.normal_axis == b.normal_axis && a.slice_position == b.slice_position;
    }
    sta::check(!was || same, "flip-unneeded");
    sta::check(placed, "flip-moves-pieces");
}
pub fn entry_fix_twists() {
    fix::<Cube2, AxisMove>(Cube2::new_solved);
    let mut c = Cube2::new_solved();
    sta::havoc(&mut c, "s");
    let before = c.clone();
    fix_corner_multiplicity(&mut c.corners);
    sta::check(twist_sum(c.corners.pieces()) == 0, "twist");
    let was = twist_sum(before.corners.pieces()) == 0;
    let mut same = true;
    let mut placed = true;
    for i in 0..8 {
        let (a, b) = (&c.corners.pieces()[i], &before.corners.pieces()[i]);
        same &= a == b;
        placed &= a.position == b.position;
    }
    sta::check(!was || same, "twist-unneeded");
    sta::check(placed, "twist-moves-pieces");
}
pub fn entry_zrand_8e() {
    random3::<0, 8, 0>();
}
pub fn entry_zrand_9e() {
    random3::<2, 9, 0>();
}
