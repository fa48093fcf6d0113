//! Wide moves never get deeper than their type allows.
use crate::random::AnyRng;
use crate::sta;
use barbarosa::cube_n::moves::wide::WideMoveCreationError;
use barbarosa::cube_n::moves::ExtendedAxisMove;
use barbarosa::cube_n::*;
use barbarosa::generic::{Alg, Move};
use rand::distributions::{Distribution, Standard};

const BIG: [u32; 6] = [1 << 8, 1 << 16, 1 << 31, u32::MAX - 2, u32::MAX - 1, u32::MAX];
/// some depth: every small one, and some large ones
fn depth() -> u32 {
    let k = sta::pick("depth", 16);
    if k < 10 {
        k as u32
    } else {
        BIG[k - 10]
    }
}
fn turn() -> AxisMove {
    AxisMove::new(sta::any("face"), sta::any("amount"))
}
fn any_wide<const N: u32>() -> WideAxisMove<N> {
    let t = turn();
    let d = depth();
    sta::assume(d <= N);
    match WideAxisMove::new(t.face, t.amount, d) {
        Ok(w) => w,
        Err(_) => {
            sta::check(false, "wide-exists");
            loop {}
        }
    }
}
fn is<const N: u32>(w: &WideAxisMove<N>, t: &AxisMove, d: u32) -> bool {
    w.axis_move == *t && *w.face() == t.face && w.amount() == t.amount && w.depth() == d
}
fn creation<const N: u32>() {
    let t = turn();
    let d = depth();
    match WideAxisMove::<N>::new(t.face.clone(), t.amount, d) {
        Ok(w) => sta::check(d <= N && is(&w, &t, d), "new"),
        Err(WideMoveCreationError::ExcededDepth(given, most)) => sta::check(d > N && given == d && most == N, "new-refused"),
    }
    match t.clone().widen::<N>(d) {
        Ok(w) => sta::check(d <= N && is(&w, &t, d), "widen"),
        Err(_) => sta::check(d > N, "widen-refused"),
    }
}
/// every depth there is, as a range
fn creation_ranges<const N: u32>() {
    let t = turn();
    let d = sta::interval(0, N as usize) as u32;
    sta::check(WideAxisMove::<N>::new(t.face.clone(), t.amount, d).is_ok(), "range-accepted");
    if N < u32::MAX {
        let d = sta::interval(N as usize + 1, u32::MAX as usize) as u32;
        sta::check(WideAxisMove::<N>::new(t.face.clone(), t.amount, d).is_err(), "range-refused");
        let mut w = any_wide::<N>();
        let before = w.depth();
        sta::check(w.set_depth(d).is_err() && w.depth() == before, "range-set-refused");
    }
}
fn changes<const N: u32>() {
    let mut w = any_wide::<N>();
    let v = w.clone();
    sta::check(v == w, "equal");
    sta::check(w.inverse().depth() == w.depth() && w.inverse().axis_move == w.axis_move.inverse(), "inverse");
    let d = depth();
    match w.set_depth(d) {
        Ok(()) => sta::check(d <= N && is(&w, &v.axis_move, d), "set-depth"),
        Err(_) => sta::check(d > N && w == v, "set-depth-refused"),
    }
    match ExtendedAxisMove::from(v.clone()) {
        ExtendedAxisMove::Wide(x) => sta::check(is(&x, &v.axis_move, v.depth()), "extended"),
        _ => sta::check(false, "extended-kind"),
    }
}
fn bound<const N: u32, const M: u32>() {
    let w = any_wide::<N>();
    match w.clone().set_max_depth::<M>() {
        Ok(x) => sta::check(w.depth() <= M && is(&x, &w.axis_move, w.depth()), "set-max-depth"),
        Err(_) => sta::check(w.depth() > M, "set-max-depth-refused"),
    }
}
fn algs<const N: u32>() {
    let d = depth();
    let a: Alg<AxisMove> = Alg::new(vec![turn(), turn()]);
    match a.clone().widen::<N>(d) {
        Ok(w) => sta::check(d <= N && w.moves.len() == 2 && is(&w.moves[0], &a.moves[0], d) && is(&w.moves[1], &a.moves[1], d), "alg-widen"),
        Err(_) => sta::check(d > N, "alg-widen-refused"),
    }
}
fn random<const N: u32>() {
    let w: WideAxisMove<N> = Standard.sample(&mut AnyRng);
    sta::check(w.depth() <= N, "random");
}
macro_rules! all {
    ($($e:ident $r:ident $c:ident $n:expr),* $(,)?) => { $(
        pub fn $e() { creation::<{ $n }>(); algs::<{ $n }>(); }
        pub fn $r() { creation_ranges::<{ $n }>(); }
        pub fn $c() {
            changes::<{ $n }>();
            bound::<{ $n }, 0>();
            bound::<{ $n }, 1>();
            bound::<{ $n }, 2>();
            bound::<{ $n }, 5>();
            bound::<{ $n }, { u32::MAX - 1 }>();
            bound::<{ $n }, { u32::MAX }>();
        }
    )* };
}
all!(
    entry_wide_new_0 entry_wide_range_0 entry_wide_change_0 0,
    entry_wide_new_1 entry_wide_range_1 entry_wide_change_1 1,
    entry_wide_new_2 entry_wide_range_2 entry_wide_change_2 2,
    entry_wide_new_5 entry_wide_range_5 entry_wide_change_5 5,
    entry_wide_new_huge entry_wide_range_huge entry_wide_change_huge u32::MAX - 1,
    entry_wide_new_max entry_wide_range_max entry_wide_change_max u32::MAX,
);
pub fn entry_wide_random() {
    random::<0>();
    random::<1>();
    random::<2>();
    random::<5>();
}
