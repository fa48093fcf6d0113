//! Reading and writing moves.
use crate::geo::AnyMove;
use crate::sta;
use crate::view::{self, View};
use barbarosa::cube_n::moves::non_redundant::NonRedundantAxisMove;
use barbarosa::cube_n::moves::rotation::AxisRotation;
use barbarosa::cube_n::moves::{Amount, ExtendedAxisMove};
use barbarosa::cube_n::space::{Axis, Face};
use barbarosa::cube_n::{AxisMove, WideAxisMove};
use barbarosa::generic::moves::AsMove;
use barbarosa::generic::{Alg, Parsable};

/// characters with a meaning, without one, of every length, digits and spaces of other scripts
const SYMBOLS: [&str; 24] = [
    "R", "b", "w", "x", "M", "s", "2", "'", "0", "9", " ", "\t", "/*", "//", "\u{b2}", "\u{bd}", "\u{e9}", "\u{663}", "\u{2019}", "\u{2003}",
    "\u{a0}", "\u{ff32}", "\u{1d7d0}", "\u{1f3b2}",
];
/// what algs are made of
const PARTS: [u8; 12] = *b"RUFwbxM'2 \n\x0b";

fn as_str(t: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(t) }
}
/// any text of K characters of ASCII
fn read<T: Parsable + View, const K: usize>()
where
    T::Rule: 'static,
{
    let mut t = [0; K];
    for i in 0..K {
        t[i] = sta::pick("c", 128) as u8;
    }
    sta::out("text", &t);
    sta::out("read", &T::parse(as_str(&t)).ok().map(|v| v.view()));
}
/// any text of K symbols
fn read_any<T: Parsable + View, const K: usize>()
where
    T::Rule: 'static,
{
    let mut t = [0; 64];
    let mut n = 0;
    let mut code = [0; K];
    for i in 0..K {
        let c = sta::pick("c", SYMBOLS.len());
        code[i] = c as u8;
        let s = SYMBOLS[c].as_bytes();
        for k in 0..s.len() {
            t[n] = s[k];
            n += 1;
        }
    }
    sta::out("text", &code);
    sta::out("read", &T::parse(as_str(&t[..n])).ok().map(|v| v.view()));
}
fn read_alg<T: AsMove + 'static, const K: usize>()
where
    T::Move: Parsable + View + 'static,
    <T::Move as Parsable>::Rule: 'static,
{
    let mut t = [0; K];
    for i in 0..K {
        t[i] = PARTS[sta::pick("c", PARTS.len())];
    }
    sta::out("text", &t);
    let a = Alg::<T>::parse(as_str(&t));
    let seen = a.as_ref().ok().map(|a| view::all(&a.moves));
    sta::out("read", &seen.as_ref().map(|a| a.as_slice()));
    let b = Alg::<T>::try_from(as_str(&t));
    sta::check(a.is_ok() == b.is_ok(), "try-from-same");
    if let (Ok(a), Ok(b)) = (&a, &b) {
        sta::check(a.moves.len() == b.moves.len(), "try-from-length");
    }
}
pub fn entry_read_face_0() {
    read::<Face, 0>();
}
pub fn entry_read_face_1() {
    read::<Face, 1>();
}
pub fn entry_read_face_2() {
    read::<Face, 2>();
}
pub fn entry_read_face_3() {
    read::<Face, 3>();
}
pub fn entry_read_face_4() {
    read::<Face, 4>();
}
pub fn entry_read_face_5() {
    read::<Face, 5>();
}
pub fn entry_read_face_6() {
    read::<Face, 6>();
}
pub fn entry_read_face_12() {
    read::<Face, 12>();
}
pub fn entry_any_face_1() {
    read_any::<Face, 1>();
}
pub fn entry_any_face_2() {
    read_any::<Face, 2>();
}
pub fn entry_any_face_3() {
    read_any::<Face, 3>();
}
pub fn entry_any_face_5() {
    read_any::<Face, 5>();
}
pub fn entry_read_amount_0() {
    read::<Amount, 0>();
}
pub fn entry_read_amount_1() {
    read::<Amount, 1>();
}
pub fn entry_read_amount_2() {
    read::<Amount, 2>();
}
pub fn entry_read_amount_3() {
    read::<Amount, 3>();
}
pub fn entry_read_amount_4() {
    read::<Amount, 4>();
}
pub fn entry_read_amount_5() {
    read::<Amount, 5>();
}
pub fn entry_read_amount_6() {
    read::<Amount, 6>();
}
pub fn entry_read_amount_12() {
    read::<Amount, 12>();
}
pub fn entry_any_amount_1() {
    read_any::<Amount, 1>();
}
pub fn entry_any_amount_2() {
    read_any::<Amount, 2>();
}
pub fn entry_any_amount_3() {
    read_any::<Amount, 3>();
}
pub fn entry_any_amount_5() {
    read_any::<Amount, 5>();
}
pub fn entry_read_axis_0() {
    read::<AxisMove, 0>();
}
pub fn entry_read_axis_1() {
    read::<AxisMove, 1>();
}
pub fn entry_read_axis_2() {
    read::<AxisMove, 2>();
}
pub fn entry_read_axis_3() {
    read::<AxisMove, 3>();
}
pub fn entry_read_axis_4() {
    read::<AxisMove, 4>();
}
pub fn entry_read_axis_5() {
    read::<AxisMove, 5>();
}
pub fn entry_read_axis_6() {
    read::<AxisMove, 6>();
}
pub fn entry_read_axis_12() {
    read::<AxisMove, 12>();
}
pub fn entry_any_axis_1() {
    read_any::<AxisMove, 1>();
}
pub fn entry_any_axis_2() {
    read_any::<AxisMove, 2>();
}
pub fn entry_any_axis_3() {
    read_any::<AxisMove, 3>();
}
pub fn entry_any_axis_5() {
    read_any::<AxisMove, 5>();
}
pub fn entry_read_line_0() {
    read::<Axis, 0>();
}
pub fn entry_read_line_1() {
    read::<Axis, 1>();
}
pub fn entry_read_line_2() {
    read::<Axis, 2>();
}
pub fn entry_read_line_3() {
    read::<Axis, 3>();
}
pub fn entry_read_line_4() {
    read::<Axis, 4>();
}
pub fn entry_read_line_5() {
    read::<Axis, 5>();
}
pub fn entry_read_line_6() {
    read::<Axis, 6>();
}
pub fn entry_read_line_12() {
    read::<Axis, 12>();
}
pub fn entry_any_line_1() {
    read_any::<Axis, 1>();
}
pub fn entry_any_line_2() {
    read_any::<Axis, 2>();
}
pub fn entry_any_line_3() {
    read_any::<Axis, 3>();
}
pub fn entry_any_line_5() {
    read_any::<Axis, 5>();
}
pub fn entry_read_rotation_0() {
    read::<AxisRotation, 0>();
}
pub fn entry_read_rotation_1() {
    read::<AxisRotation, 1>();
}
pub fn entry_read_rotation_2() {
    read::<AxisRotation, 2>();
}
pub fn entry_read_rotation_3() {
    read::<AxisRotation, 3>();
}
pub fn entry_read_rotation_4() {
    read::<AxisRotation, 4>();
}
pub fn entry_read_rotation_5() {
    read::<AxisRotation, 5>();
}
pub fn entry_read_rotation_6() {
    read::<AxisRotation, 6>();
}
pub fn entry_read_rotation_12() {
    read::<AxisRotation, 12>();
}
pub fn entry_any_rotation_1() {
    read_any::<AxisRotation, 1>();
}
pub fn entry_any_rotation_2() {
    read_any::<AxisRotation, 2>();
}
pub fn entry_any_rotation_3() {
    read_any::<AxisRotation, 3>();
}
pub fn entry_any_rotation_5() {
    read_any::<AxisRotation, 5>();
}
pub fn entry_read_extended_0() {
    read::<ExtendedAxisMove, 0>();
}
pub fn entry_read_extended_1() {
    read::<ExtendedAxisMove, 1>();
}
pub fn entry_read_extended_2() {
    read::<ExtendedAxisMove, 2>();
}
pub fn entry_read_extended_3() {
    read::<ExtendedAxisMove, 3>();
}
pub fn entry_read_extended_4() {
    read::<ExtendedAxisMove, 4>();
}
pub fn entry_read_extended_5() {
    read::<ExtendedAxisMove, 5>();
}
pub fn entry_read_extended_6() {
    read::<ExtendedAxisMove, 6>();
}
pub fn entry_read_extended_12() {
    read::<ExtendedAxisMove, 12>();
}
pub fn entry_any_extended_1() {
    read_any::<ExtendedAxisMove, 1>();
}
pub fn entry_any_extended_2() {
    read_any::<ExtendedAxisMove, 2>();
}
pub fn entry_any_extended_3() {
    read_any::<ExtendedAxisMove, 3>();
}
pub fn entry_any_extended_5() {
    read_any::<ExtendedAxisMove, 5>();
}
pub fn entry_read_depth_0() {
    read::<u32, 0>();
}
pub fn entry_read_depth_1() {
    read::<u32, 1>();
}
pub fn entry_read_depth_2() {
    read::<u32, 2>();
}
pub fn entry_read_depth_3() {
    read::<u32, 3>();
}
pub fn entry_read_depth_4() {
    read::<u32, 4>();
}
pub fn entry_read_depth_5() {
    read::<u32, 5>();
}
pub fn entry_read_depth_6() {
    read::<u32, 6>();
}
pub fn entry_read_depth_12() {
    read::<u32, 12>();
}
pub fn entry_any_depth_1() {
    read_any::<u32, 1>();
}
pub fn entry_any_depth_2() {
    read_any::<u32, 2>();
}
pub fn entry_any_depth_3() {
    read_any::<u32, 3>();
}
pub fn entry_any_depth_5() {
    read_any::<u32, 5>();
}
pub fn entry_read_wide0_0() {
    read::<WideAxisMove<0>, 0>();
}
pub fn entry_read_wide0_1() {
    read::<WideAxisMove<0>, 1>();
}
pub fn entry_read_wide0_2() {
    read::<WideAxisMove<0>, 2>();
}
pub fn entry_read_wide0_3() {
    read::<WideAxisMove<0>, 3>();
}
pub fn entry_read_wide0_4() {
    read::<WideAxisMove<0>, 4>();
}
pub fn entry_read_wide0_5() {
    read::<WideAxisMove<0>, 5>();
}
pub fn entry_read_wide0_6() {
    read::<WideAxisMove<0>, 6>();
}
pub fn entry_read_wide0_12() {
    read::<WideAxisMove<0>, 12>();
}
pub fn entry_any_wide0_1() {
    read_any::<WideAxisMove<0>, 1>();
}
pub fn entry_any_wide0_2() {
    read_any::<WideAxisMove<0>, 2>();
}
pub fn entry_any_wide0_3() {
    read_any::<WideAxisMove<0>, 3>();
}
pub fn entry_any_wide0_5() {
    read_any::<WideAxisMove<0>, 5>();
}
pub fn entry_read_wide1_0() {
    read::<WideAxisMove<1>, 0>();
}
pub fn entry_read_wide1_1() {
    read::<WideAxisMove<1>, 1>();
}
pub fn entry_read_wide1_2() {
    read::<WideAxisMove<1>, 2>();
}
pub fn entry_read_wide1_3() {
    read::<WideAxisMove<1>, 3>();
}
pub fn entry_read_wide1_4() {
    read::<WideAxisMove<1>, 4>();
}
pub fn entry_read_wide1_5() {
    read::<WideAxisMove<1>, 5>();
}
pub fn entry_read_wide1_6() {
    read::<WideAxisMove<1>, 6>();
}
pub fn entry_read_wide1_12() {
    read::<WideAxisMove<1>, 12>();
}
pub fn entry_any_wide1_1() {
    read_any::<WideAxisMove<1>, 1>();
}
pub fn entry_any_wide1_2() {
    read_any::<WideAxisMove<1>, 2>();
}
pub fn entry_any_wide1_3() {
    read_any::<WideAxisMove<1>, 3>();
}
pub fn entry_any_wide1_5() {
    read_any::<WideAxisMove<1>, 5>();
}
pub fn entry_read_wide3_0() {
    read::<WideAxisMove<3>, 0>();
}
pub fn entry_read_wide3_1() {
    read::<WideAxisMove<3>, 1>();
}
pub fn entry_read_wide3_2() {
    read::<WideAxisMove<3>, 2>();
}
pub fn entry_read_wide3_3() {
    read::<WideAxisMove<3>, 3>();
}
pub fn entry_read_wide3_4() {
    read::<WideAxisMove<3>, 4>();
}
pub fn entry_read_wide3_5() {
    read::<WideAxisMove<3>, 5>();
}
pub fn entry_read_wide3_6() {
    read::<WideAxisMove<3>, 6>();
}
pub fn entry_read_wide3_12() {
    read::<WideAxisMove<3>, 12>();
}
pub fn entry_any_wide3_1() {
    read_any::<WideAxisMove<3>, 1>();
}
pub fn entry_any_wide3_2() {
    read_any::<WideAxisMove<3>, 2>();
}
pub fn entry_any_wide3_3() {
    read_any::<WideAxisMove<3>, 3>();
}
pub fn entry_any_wide3_5() {
    read_any::<WideAxisMove<3>, 5>();
}
pub fn entry_read_wide7_0() {
    read::<WideAxisMove<7>, 0>();
}
pub fn entry_read_wide7_1() {
    read::<WideAxisMove<7>, 1>();
}
pub fn entry_read_wide7_2() {
    read::<WideAxisMove<7>, 2>();
}
pub fn entry_read_wide7_3() {
    read::<WideAxisMove<7>, 3>();
}
pub fn entry_read_wide7_4() {
    read::<WideAxisMove<7>, 4>();
}
pub fn entry_read_wide7_5() {
    read::<WideAxisMove<7>, 5>();
}
pub fn entry_read_wide7_6() {
    read::<WideAxisMove<7>, 6>();
}
pub fn entry_read_wide7_12() {
    read::<WideAxisMove<7>, 12>();
}
pub fn entry_any_wide7_1() {
    read_any::<WideAxisMove<7>, 1>();
}
pub fn entry_any_wide7_2() {
    read_any::<WideAxisMove<7>, 2>();
}
pub fn entry_any_wide7_3() {
    read_any::<WideAxisMove<7>, 3>();
}
pub fn entry_any_wide7_5() {
    read_any::<WideAxisMove<7>, 5>();
}
pub fn entry_read_widest_0() {
    read::<WideAxisMove<{ u32::MAX }>, 0>();
}
pub fn entry_read_widest_1() {
    read::<WideAxisMove<{ u32::MAX }>, 1>();
}
pub fn entry_read_widest_2() {
    read::<WideAxisMove<{ u32::MAX }>, 2>();
}
pub fn entry_read_widest_3() {
    read::<WideAxisMove<{ u32::MAX }>, 3>();
}
pub fn entry_read_widest_4() {
    read::<WideAxisMove<{ u32::MAX }>, 4>();
}
pub fn entry_read_widest_5() {
    read::<WideAxisMove<{ u32::MAX }>, 5>();
}
pub fn entry_read_widest_6() {
    read::<WideAxisMove<{ u32::MAX }>, 6>();
}
pub fn entry_read_widest_12() {
    read::<WideAxisMove<{ u32::MAX }>, 12>();
}
pub fn entry_any_widest_1() {
    read_any::<WideAxisMove<{ u32::MAX }>, 1>();
}
pub fn entry_any_widest_2() {
    read_any::<WideAxisMove<{ u32::MAX }>, 2>();
}
pub fn entry_any_widest_3() {
    read_any::<WideAxisMove<{ u32::MAX }>, 3>();
}
pub fn entry_any_widest_5() {
    read_any::<WideAxisMove<{ u32::MAX }>, 5>();
}
/// any K characters somewhere in a long alg
fn read_amid<T: AsMove + 'static, const K: usize>(before: &str, after: &str)
where
    T::Move: Parsable + View + 'static,
    <T::Move as Parsable>::Rule: 'static,
{
    let mut c = [0; K];
    for i in 0..K {
        c[i] = PARTS[sta::pick("c", PARTS.len())];
    }
    sta::out("text", &c);
    let mut t = String::from(before);
    t.push_str(as_str(&c));
    t.push_str(after);
    let a = Alg::<T>::parse(&t);
    let seen = a.as_ref().ok().map(|a| view::all(&a.moves));
    sta::out("read", &seen.as_ref().map(|a| a.as_slice()));
}
/// which the check repeats
const MANY: &str = "R U' F2 D L2 B' U R2 F L' D2 B R' U2 F' L D' R F2 U L2 B2 D R' ";
pub fn entry_amid_axis_2() {
    read_amid::<AxisMove, 2>(&[MANY; 5].concat(), " L U2");
}
pub fn entry_amid_axis_3() {
    read_amid::<AxisMove, 3>("", MANY);
}
pub fn entry_amid_wide3_3() {
    read_amid::<WideAxisMove<3>, 3>(MANY, "");
}
pub fn entry_amid_extended_3() {
    read_amid::<ExtendedAxisMove, 3>(MANY, "");
}
pub fn entry_alg_axis_0() {
    read_alg::<AxisMove, 0>();
}
pub fn entry_alg_axis_1() {
    read_alg::<AxisMove, 1>();
}
pub fn entry_alg_axis_2() {
    read_alg::<AxisMove, 2>();
}
pub fn entry_alg_axis_3() {
    read_alg::<AxisMove, 3>();
}
pub fn entry_alg_axis_4() {
    read_alg::<AxisMove, 4>();
}
pub fn entry_alg_axis_5() {
    read_alg::<AxisMove, 5>();
}
pub fn entry_alg_axis_6() {
    read_alg::<AxisMove, 6>();
}
pub fn entry_alg_wide3_0() {
    read_alg::<WideAxisMove<3>, 0>();
}
pub fn entry_alg_wide3_1() {
    read_alg::<WideAxisMove<3>, 1>();
}
pub fn entry_alg_wide3_2() {
    read_alg::<WideAxisMove<3>, 2>();
}
pub fn entry_alg_wide3_3() {
    read_alg::<WideAxisMove<3>, 3>();
}
pub fn entry_alg_wide3_4() {
    read_alg::<WideAxisMove<3>, 4>();
}
pub fn entry_alg_wide3_5() {
    read_alg::<WideAxisMove<3>, 5>();
}
pub fn entry_alg_wide3_6() {
    read_alg::<WideAxisMove<3>, 6>();
}
pub fn entry_alg_extended_0() {
    read_alg::<ExtendedAxisMove, 0>();
}
pub fn entry_alg_extended_1() {
    read_alg::<ExtendedAxisMove, 1>();
}
pub fn entry_alg_extended_2() {
    read_alg::<ExtendedAxisMove, 2>();
}
pub fn entry_alg_extended_3() {
    read_alg::<ExtendedAxisMove, 3>();
}
pub fn entry_alg_extended_4() {
    read_alg::<ExtendedAxisMove, 4>();
}
pub fn entry_alg_extended_5() {
    read_alg::<ExtendedAxisMove, 5>();
}
pub fn entry_alg_extended_6() {
    read_alg::<ExtendedAxisMove, 6>();
}

/// a value, what it is printed as, and what that is read as
fn print<T: Parsable + std::fmt::Display>(v: T, same: fn(&T, &T) -> bool)
where
    T::Rule: 'static,
{
    let s = format!("{v}");
    sta::out("text", &s.as_str());
    let r = T::parse(&s).ok();
    sta::out("read-back", &r.as_ref().map(|r| same(&v, r)));
}
pub fn entry_print_face() {
    let f: Face = sta::any("v");
    sta::out("v", &f);
    print(f, |a, b| a == b);
}
pub fn entry_print_amount() {
    let a: Amount = sta::any("v");
    sta::out("v", &a);
    print(a, |a, b| a == b);
}
pub fn entry_print_axis() {
    let m: AxisMove = sta::any("v");
    sta::out("v", &m);
    print(m, |a, b| a == b);
}
fn any_wide<const N: u32>(depths: usize) -> WideAxisMove<N> {
    WideAxisMove::new(sta::any("face"), sta::any("amount"), sta::pick("depth", depths) as u32).unwrap()
}
fn print_wide<const N: u32>(depths: usize) {
    let m = any_wide::<N>(depths);
    sta::out("v", &m.axis_move);
    sta::out("depth", &m.depth());
    print(m, |a, b| a.axis_move == b.axis_move && a.depth() == b.depth());
}
pub fn entry_print_wide0() {
    print_wide::<0>(1);
}
pub fn entry_print_wide1() {
    print_wide::<1>(2);
}
pub fn entry_print_wide3() {
    print_wide::<3>(4);
}
pub fn entry_print_widest() {
    print_wide::<{ u32::MAX }>(120);
}
pub fn entry_print_nr() {
    let m: NonRedundantAxisMove = NonRedundantAxisMove::any_move();
    let a: Vec<AxisMove> = m.moves().collect();
    sta::out("v", &a.as_slice());
    let s = format!("{m}");
    sta::out("text", &s.as_str());
    let r = Alg::<AxisMove>::parse(&s).ok();
    sta::out("read-back", &r.map(|r| r.moves == a));
}
fn print_alg<const K: usize>() {
    let a = Alg::<AxisMove>::new((0..K).map(|_| sta::any("m")).collect());
    let s = format!("{a}");
    sta::out("v", &a.moves.as_slice());
    sta::out("text", &s.as_str());
    let r = Alg::<AxisMove>::parse(&s).ok();
    sta::out("read-back", &r.map(|r| r.moves == a.moves));
}
fn print_alg_wide<const K: usize>() {
    let a = Alg::<WideAxisMove<1>>::new((0..K).map(|_| any_wide(2)).collect());
    let s = format!("{a}");
    let r = Alg::<WideAxisMove<1>>::parse(&s);
    sta::check(r.is_ok(), "wide-alg-read");
    let mut same = true;
    if let Ok(r) = &r {
        same = r.moves.len() == a.moves.len();
        let mut k = 0;
        while same && k < K {
            same &= r.moves[k].axis_move == a.moves[k].axis_move && r.moves[k].depth() == a.moves[k].depth();
            k += 1;
        }
    }
    sta::check(same, "wide-alg-same");
}
/// two arbitrary turns at the end of a long alg
pub fn entry_print_long() {
    let some = Alg::<AxisMove>::parse(MANY).unwrap().moves;
    let mut v = Vec::new();
    for _ in 0..5 {
        v.extend_from_slice(&some);
    }
    v.push(sta::any("m"));
    v.push(sta::any("m"));
    let a = Alg::<AxisMove>::new(v);
    let s = format!("{a}");
    sta::out("v", &&a.moves[120..]);
    sta::out("text", &s.as_str());
    let r = Alg::<AxisMove>::parse(&s).ok();
    sta::out("read-back", &r.map(|r| r.moves == a.moves));
}
pub fn entry_print_alg0() {
    print_alg::<0>();
}
pub fn entry_print_alg1() {
    print_alg::<1>();
}
pub fn entry_print_alg2() {
    print_alg::<2>();
}
pub fn entry_print_alg3() {
    print_alg::<3>();
}
pub fn entry_print_alg4() {
    print_alg::<4>();
}
pub fn entry_print_alg5() {
    print_alg::<5>();
}
pub fn entry_print_alg_wide1() {
    print_alg_wide::<1>();
}
pub fn entry_print_alg_wide2() {
    print_alg_wide::<2>();
}
pub fn entry_print_alg_wide3() {
    print_alg_wide::<3>();
}
pub fn entry_alg_axis_7() {
    read_alg::<AxisMove, 7>();
}
pub fn entry_alg_wide3_7() {
    read_alg::<WideAxisMove<3>, 7>();
}
pub fn entry_alg_extended_7() {
    read_alg::<ExtendedAxisMove, 7>();
}
pub fn entry_alg_axis_8() {
    read_alg::<AxisMove, 8>();
}
pub fn entry_alg_wide3_8() {
    read_alg::<WideAxisMove<3>, 8>();
}
pub fn entry_alg_extended_8() {
    read_alg::<ExtendedAxisMove, 8>();
}
/// what is wrong with a text can be shown
pub fn entry_read_refused() {
    let t = ["", "Q", "R U x", "3R", "R2 Q'", "\u{e9}", "R  U", "R U'2"][sta::pick("text", 8)];
    let texts = [
        AxisMove::parse(t).err().map(|e| e.to_string()),
        WideAxisMove::<1>::parse(t).err().map(|e| e.to_string()),
        ExtendedAxisMove::parse(t).err().map(|e| e.to_string()),
        Alg::<AxisMove>::parse(t).err().map(|e| e.to_string()),
    ];
    for x in texts {
        if let Some(x) = x {
            sta::check(!x.is_empty(), "refusal-shown");
        }
    }
}
