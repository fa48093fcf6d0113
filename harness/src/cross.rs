//! The cross of a 3x3 and the heuristics for it; distances of pieces.
use crate::geo::fix;
use crate::sta;
use barbarosa::cube_n::cube3::cfop::cross::*;
use barbarosa::cube_n::cube3::heuristics;
use barbarosa::cube_n::cube3::heuristics::manhattan::{manhattan_filtered, piece_manhattan, vec_manhattan};
use barbarosa::cube_n::pieces::edge::min_moves_to_solve;
use barbarosa::cube_n::space::Face;
use barbarosa::cube_n::*;
use barbarosa::generic::piece::{Coordinates, PieceSetDescriptor};
use barbarosa::generic::{Cube, Movable, Piece};

pub fn entry_cross_edges() {
    let f: Face = sta::any("f");
    sta::out("f", &f);
    let mut is = [false; 12];
    for (k, p) in Edge::REFERENCE_POSITIONS.iter().enumerate() {
        is[k] = is_cross_edge(p, &f);
    }
    sta::out("is", &is);
    let places: [(barbarosa::cube_n::space::Axis, [barbarosa::cube_n::space::Direction; 2]); 12] = Edge::REFERENCE_POSITIONS.map(|(a, s)| (a, [s.x, s.y]));
    sta::out("places", &places);
    let pieces = get_cross_pieces(&f).map(|(a, s)| (a, [s.x, s.y]));
    sta::out("pieces", &pieces);
}
fn any_cube() -> Cube3 {
    fix::<Cube3, AxisMove>(Cube3::new_solved);
    let mut c = Cube3::new_solved();
    sta::havoc(&mut c, "s");
    c
}
pub fn entry_cross_count() {
    let f: Face = sta::any("f");
    let c = any_cube();
    let mut n = 0;
    for k in 0..12 {
        let p = &Edge::REFERENCE_POSITIONS[k];
        if is_cross_edge(p, &f) && c.edges.pieces()[k].position() == *p && c.edges.pieces()[k].oriented {
            n += 1;
        }
    }
    sta::check(count_cross_pieces(&c, &f) == n, "count");
}
pub fn entry_cross_heuristics() {
    let f: Face = sta::any("f");
    let c = any_cube();
    let (mut sum, mut max) = (0, 0);
    for k in 0..12 {
        let p = &Edge::REFERENCE_POSITIONS[k];
        if is_cross_edge(p, &f) {
            let d = min_moves_to_solve(p, &c.edges.pieces()[k]);
            sum += d;
            if d > max {
                max = d;
            }
        }
    }
    sta::check(worse_but_admissable_cross_heuristic(&c, &f) == max as f32, "admissible");
    sta::check(good_cross_heuristic(&c, &f) == sum as f32 / 2.0, "good");
    sta::check(heuristics::zero(&c) == 0.0, "zero");
}
/// one turn away from solved
pub fn entry_solve_cross1() {
    let f: Face = sta::any("f");
    let m: AxisMove = sta::any("m");
    let c = Cube3::SOLVED.moved(&m);
    cross_of(&c, &f, 1);
}
pub fn entry_solve_cross0() {
    let f: Face = sta::any("f");
    cross_of(&Cube3::SOLVED, &f, 0);
}
fn cross_of(c: &Cube3, f: &Face, most: usize) {
    match solve_cross(c, f) {
        None => sta::check(false, "solved"),
        Some((alg, d)) => {
            sta::check(alg.moves.len() <= most, "shortest");
            sta::check(c.clone().moved(&alg) == d, "leads-there");
            sta::check(count_cross_pieces(&d, f) == 4, "four");
        }
    }
    match solve_cross_fast(c, f) {
        None => sta::check(false, "fast-solved"),
        Some((alg, d)) => {
            sta::check(c.clone().moved(&alg) == d, "fast-leads-there");
            sta::check(count_cross_pieces(&d, f) == 4, "fast-four");
        }
    }
}
/// distances of pieces
pub fn entry_manhattan_pieces() {
    let c = any_cube();
    sta::pieces("before", &c);
    let mut e = [0; 12];
    for (k, x) in c.edges.pieces().iter().enumerate() {
        e[k] = piece_manhattan(Edge::REFERENCE_POSITIONS[k], x) as i32;
        let (a, b) = (x.coordinates(), Edge::coordinates_pos(Edge::REFERENCE_POSITIONS[k]));
        sta::check(((a.x - b.x).abs() + (a.y - b.y).abs() + (a.z - b.z).abs()) as i32 == e[k], "edge-distance");
        sta::check(vec_manhattan(&a, &b) as i32 == e[k], "vec-distance");
    }
    for (k, x) in c.corners.pieces().iter().enumerate() {
        let d = piece_manhattan(Corner::REFERENCE_POSITIONS[k], x) as i32;
        let (a, b) = (x.coordinates(), Corner::coordinates_pos(Corner::REFERENCE_POSITIONS[k]));
        sta::check(((a.x - b.x).abs() + (a.y - b.y).abs() + (a.z - b.z).abs()) as i32 == d, "corner-distance");
    }
}
pub fn entry_manhattan() {
    let c = any_cube();
    let (mut e, mut k) = (0.0, 0.0);
    let mut solved_e = 0.0;
    for (i, x) in c.edges.pieces().iter().enumerate() {
        let d = piece_manhattan(Edge::REFERENCE_POSITIONS[i], x);
        e += d;
        if x.oriented {
            solved_e += d;
        }
    }
    for (i, x) in c.corners.pieces().iter().enumerate() {
        k += piece_manhattan(Corner::REFERENCE_POSITIONS[i], x);
    }
    sta::check(heuristics::manhattan(&c) == (e + k) / 16.0, "manhattan");
    sta::check(manhattan_filtered(&c.edges, |_, _| true) == e, "filtered-all");
    sta::check(manhattan_filtered(&c.corners, |_, _| false) == 0.0, "filtered-none");
    sta::check(manhattan_filtered(&c.edges, |_, x| x.oriented) == solved_e, "filtered");
}
/// two turns away from solved
pub fn entry_solve_cross2() {
    let f = Face::D;
    let c = Cube3::SOLVED.moved(&sta::any::<AxisMove>("m")).moved(&sta::any::<AxisMove>("n"));
    cross_of(&c, &f, 2);
}
pub fn entry_solve1() {
    solve_of(Cube3::SOLVED.moved(&sta::any::<AxisMove>("m")), 1);
}
pub fn entry_solve0() {
    solve_of(Cube3::SOLVED, 0);
}
pub fn entry_solve2() {
    solve_of(Cube3::SOLVED.moved(&sta::any::<AxisMove>("m")).moved(&sta::any::<AxisMove>("n")), 2);
}
fn solve_of(c: Cube3, most: usize) {
    match c.solve_with_heuristic(heuristics::zero) {
        None => sta::check(false, "solution"),
        Some(alg) => {
            sta::check(alg.moves.len() <= most, "solution-shortest");
            sta::check(c.moved(&alg) == Cube3::SOLVED, "solution-solves");
        }
    }
}

/// A way home that is the only one the estimates leave open: far off it, they are at most one
/// too large on it, but for the start, where they are 0, so that there are many bounds to try.
static mut WAY: Vec<Cube3> = Vec::new();
pub fn on_a_way() -> bool {
    unsafe { !(*(&raw const WAY)).is_empty() }
}
pub fn estimate_on_the_way(c: &Cube3) -> f32 {
    let way = unsafe { &*(&raw const WAY) };
    for (k, x) in way.iter().enumerate() {
        if x == c {
            return match k + 1 == way.len() || k == 0 {
                true => 0.0,
                false => k as f32 + 1.0,
            };
        }
    }
    1000.0
}
/// the cube `n` turns from solved, and from there home
fn start_a_way(n: usize) -> Cube3 {
    use barbarosa::cube_n::moves::Amount::*;
    let mut c = Cube3::new_solved();
    let mut way = Vec::with_capacity(n + 1);
    way.push(c.clone());
    for k in 0..n {
        let f = [Face::R, Face::U, Face::F, Face::D, Face::L, Face::B][k % 6].clone();
        c.apply(&AxisMove::new(f, [Inverse, Double, Single][k % 3]));
        way.push(c.clone());
    }
    unsafe { *(&raw mut WAY) = way };
    c
}
/// no cube is so far that solving gives up
pub fn entry_solve_far() {
    let c = start_a_way(20);
    match c.solve_with_heuristic(estimate_on_the_way) {
        None => sta::check(false, "solution"),
        Some(alg) => {
            sta::check(c.moved(&alg) == Cube3::SOLVED, "solution-solves");
        }
    }
}
/// and no cross; if the solvers do not ask these estimates, this says nothing
pub fn entry_solve_cross_far() {
    if sta::pick("go", 2) == 0 {
        return;
    }
    let (c, f) = (start_a_way(8), Face::D);
    for solved in [solve_cross(&c, &f), solve_cross_fast(&c, &f)] {
        match solved {
            None => sta::check(false, "far-solved"),
            Some((alg, d)) => {
                sta::check(c.clone().moved(&alg) == d, "far-leads-there");
                sta::check(count_cross_pieces(&d, &f) == 4, "far-four");
            }
        }
    }
}
