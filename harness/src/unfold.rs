//! The unfolded picture of a cube.
use crate::geo::fix;
use crate::sta;
use barbarosa::cube_n::pieces::{Corner, Edge};
use barbarosa::cube_n::space::Face;
use barbarosa::cube_n::visualization::unfolded::{Square, Unfolded};
use barbarosa::cube_n::visualization::{Color, Colored, Colorscheme};
use barbarosa::cube_n::*;
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Cube, Movable};
use nalgebra::Vector3;
use palette::Srgb;

const FACES: [Face; 6] = [Face::R, Face::U, Face::F, Face::L, Face::D, Face::B];

fn code(c: &Color) -> u8 {
    for k in 0..6 {
        if FACES[k] == c.face {
            return k as u8;
        }
    }
    6
}

fn cells<const N: usize>(u: &Unfolded<N>) -> [[[u8; N]; N]; 6] {
    let mut out = [[[9; N]; N]; 6];
    for k in 0..6 {
        for i in 0..N {
            for j in 0..N {
                out[k][i][j] = code(&u[&FACES[k]].data[i][j]);
            }
        }
    }
    out
}

fn cube<C: Cube + Movable<AxisMove> + 'static>(solved: fn() -> C) -> C {
    fix::<C, AxisMove>(solved);
    sta::pieces("home", &solved());
    let m: AxisMove = sta::any("m");
    sta::out("m", &m);
    let mut c = solved();
    sta::havoc(&mut c, "s");
    sta::pieces("before", &c);
    let mut d = c.clone();
    d.apply(&m);
    sta::pieces("after", &d);
    c
}

pub fn entry_unfold3() {
    let c = cube::<Cube3>(Cube3::new_solved);
    sta::out("cells", &cells(&Unfolded::<3>::from(c)));
}
pub fn entry_unfold2() {
    let c = cube::<Cube2>(Cube2::new_solved);
    let mut u = Unfolded::<2>::default();
    u.populate_with(&c.corners);
    sta::out("cells", &cells(&u));
}
/// what the picture of a cube is printed as
pub fn entry_unfold3_text() {
    let c = cube::<Cube3>(Cube3::new_solved);
    sta::out("text", &format!("{c}").as_str());
    sta::out("cells", &cells(&Unfolded::<3>::from(c)));
}

fn any_colors<const N: usize>() -> Unfolded<N> {
    let mut u = Unfolded::<N>::default();
    for k in 0..6 {
        for i in 0..N {
            for j in 0..N {
                u[&FACES[k]].data[i][j] = Color::new(sta::any("cell"));
            }
        }
    }
    u
}
fn text<const N: usize>() {
    let u = any_colors::<N>();
    sta::out("cells", &cells(&u));
    sta::out("text", &format!("{u}").as_str());
    let mut k = 0;
    for (f, s) in u.iter() {
        sta::check(k < 6 && f == FACES[k], "iter-face");
        sta::check(std::ptr::eq(s, &u[&f]), "iter-square");
        k += 1;
    }
    sta::check(k == 6, "iter-all");
}
pub fn entry_unfold_text2() {
    text::<2>();
}
pub fn entry_unfold_text3() {
    text::<3>();
}
pub fn entry_unfold_text4() {
    text::<4>();
}
pub fn entry_unfold_text7() {
    text::<7>();
}
/// a picture nothing was put on
pub fn entry_unfold_default() {
    let u = Unfolded::<3>::default();
    sta::out("cells", &cells(&u));
}

/// the colours of a piece from any place in any place
pub fn entry_colors_corner() {
    let home = sta::pick("home", 8);
    let at = sta::pick("at", 8);
    let h = Corner::REFERENCE_POSITIONS[home];
    let c = Corner::new(Corner::REFERENCE_POSITIONS[at], sta::any("axis"));
    sta::out("home", &[h.x, h.y, h.z]);
    sta::out("at", &[c.position.x, c.position.y, c.position.z]);
    sta::out("axis", &c.orientation_axis);
    let v = c.colors(h);
    sta::check(v.len() == 3, "three-colors");
    let mut out = [[9; 2]; 3];
    for k in 0..3 {
        out[k] = [code(&Color::new(v[k].0.clone())), code(&v[k].1)];
    }
    sta::out("colors", &out);
}
pub fn entry_colors_edge() {
    let home = sta::pick("home", 12);
    let at = sta::pick("at", 12);
    let h = Edge::REFERENCE_POSITIONS[home];
    let p = Edge::REFERENCE_POSITIONS[at];
    let e = Edge::new(p.0, p.1, sta::any("oriented"));
    sta::out("home", &(h.0, [h.1.x, h.1.y]));
    sta::out("at", &(p.0, [p.1.x, p.1.y]));
    sta::out("oriented", &e.oriented);
    let v = e.colors(h);
    sta::check(v.len() == 2, "two-colors");
    let mut out = [[9; 2]; 2];
    for k in 0..2 {
        out[k] = [code(&Color::new(v[k].0.clone())), code(&v[k].1)];
    }
    sta::out("colors", &out);
}

/// the cell at the coordinates of each cubie
fn square<const N: usize>() {
    let mut out = [[[[9u8; 2]; N]; N]; 6];
    for k in 0..6 {
        let face = FACES[k].clone();
        let mut s = Square::<N>::new(Color::RED);
        for a in 0..N {
            for b in 0..N {
                let mut v = Vector3::zeros();
                v[(face.axis as usize + 1) % 3] = (2 * a) as f32 / (N - 1) as f32 - 1.0;
                v[(face.axis as usize + 2) % 3] = (2 * b) as f32 / (N - 1) as f32 - 1.0;
                v[face.axis as usize] = face.direction.scalar() as f32;
                let p = s.at_mut(&v, &face).map(|c| c as *const Color);
                if let Some(c) = s.at(&v, &face) {
                    sta::check(p == Some(c as *const Color), "at-mut");
                    for i in 0..N {
                        for j in 0..N {
                            if std::ptr::eq(c, &s.data[i][j]) {
                                out[k][a][b] = [i as u8, j as u8];
                            }
                        }
                    }
                }
            }
        }
    }
    sta::out("at", &out);
}
pub fn entry_square2() {
    square::<2>();
}
pub fn entry_square3() {
    square::<3>();
}
pub fn entry_square4() {
    square::<4>();
}
pub fn entry_square5() {
    square::<5>();
}
pub fn entry_square6() {
    square::<6>();
}
pub fn entry_square7() {
    square::<7>();
}

struct Write<'a>(&'a Unfolded<2>, &'a Colorscheme<Srgb>);
impl std::fmt::Display for Write<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.write(self.1, f)
    }
}
/// a colour scheme of one's own
pub fn entry_scheme() {
    let mut data = [Srgb::new(0.0, 0.0, 0.0); 6];
    for k in 0..6 {
        data[k] = Srgb::new(k as f32 / 8.0, 1.0 - k as f32 / 8.0, 0.25);
    }
    let s = Colorscheme::new(data);
    let f: Face = sta::any("f");
    let c = s.get(&f);
    let k = code(&Color::new(f.clone())) as usize;
    sta::check(c.red == data[k].red && c.green == data[k].green && c.blue == data[k].blue, "scheme-get");
    let d = Colorscheme::default();
    let mut codes = [[0u8; 3]; 6];
    for k in 0..6 {
        let c = d.get(&FACES[k]);
        codes[k] = [(c.red * 255.0) as u8, (c.green * 255.0) as u8, (c.blue * 255.0) as u8];
    }
    sta::out("default", &codes);
    let u = any_colors::<2>();
    sta::out("cells", &cells(&u));
    sta::out("text", &format!("{}", Write(&u, &s)).as_str());
    sta::check(
        Color::RED.face == Face::R && Color::WHITE.face == Face::U && Color::GREEN.face == Face::F && Color::ORANGE.face == Face::L && Color::YELLOW.face == Face::D && Color::BLUE.face == Face::B,
        "named-colors",
    );
}
/// a colour shown while looking for a mistake
pub fn entry_debug_color() {
    let c = Color::new(sta::any("face"));
    let s = format!("{c:?}");
    sta::check(!s.is_empty(), "shown");
}
