//! The playground of the program.
use crate::model::console as con;
use crate::sta;
use barbarosa::cube_n::moves::ExtendedAxisMove;
use barbarosa::cube_n::{Cube3, Orientable};
use barbarosa::generic::{Alg, Cube, Movable, Parsable};

mod program {
    include!("/repo/barbarosa/src/main.rs");
    pub fn run() {
        let _ = main();
    }
}
/// some lines, after which the input ends
fn play<const N: usize>(lines: [&'static str; 4]) {
    let picks: [usize; N] = core::array::from_fn(|_| sta::pick("line", 6));
    con::set(&lines, &picks);
    con::call_with(&["-p"]);
    program::run();
    // what should have been shown
    let mut cube = Orientable::new(Cube3::SOLVED);
    let mut k = 0;
    sta::check(con::shown(0) == Some(&Cube3::SOLVED), "solved-cube-first");
    let (mut shown, mut errors, mut reads) = (1, 0, 1);
    while k < N && picks[k] < 5 {
        reads += 1;
        if picks[k] == 4 {
            errors += 1;
        } else {
            match Alg::<ExtendedAxisMove>::parse(lines[picks[k]]) {
                Ok(alg) => {
                    cube.apply(&alg);
                    sta::check(con::shown(shown) == Some(&cube.base_cube), "cube-after-line");
                    shown += 1;
                }
                Err(_) => errors += 1,
            }
        }
        k += 1;
    }
    sta::check(con::counts() == (shown, errors), "one-answer-each");
    sta::check(con::reads() == reads, "stops-at-the-end");
}
pub fn entry_play_0() {
    play::<0>(["", "", "", ""]);
}
pub fn entry_play_1() {
    play::<1>(["R", "U' F2 x", "", "R Q"]);
}
pub fn entry_play_2() {
    play::<2>(["Fw", "M'  y", "  ", "Dd2"]);
}
pub fn entry_play_3() {
    play::<3>(["R", "x'", "", "R Q"]);
}
pub fn entry_play_3b() {
    play::<3>(["z2 Bw", "S' 2Uw", "L L2 L'", "R2 D'\tF"]);
}
pub fn entry_play_4() {
    play::<4>(["y", "R", "E", "rw"]);
}
/// many lines
pub fn entry_play_long() {
    play::<9>(["R", "x'", "U2 y", "R Q"]);
}

/// the program, called with some arguments
fn program(args: &[&'static str], build: bool, play: bool) {
    con::set(&[""; 4], &[]);
    con::call_with(args);
    program::run();
    sta::check(con::built() == build as usize, "tables-built-if-asked");
    sta::check((con::counts().0 > 0) == play, "playground-if-asked");
}
const BUILD: &str = "--build-mus-cache";
const PLAY: &str = "--playground-3x3";
pub fn entry_call() {
    program(&[], false, false);
}
pub fn entry_call_build() {
    program(&[BUILD], true, false);
}
pub fn entry_call_play() {
    program(&[PLAY], false, true);
}
pub fn entry_call_p() {
    program(&["-p"], false, true);
}
pub fn entry_call_build_play() {
    program(&[BUILD, PLAY], true, true);
}
pub fn entry_call_play_build() {
    program(&[PLAY, BUILD], true, true);
}
pub fn entry_call_p_build() {
    program(&["-p", BUILD], true, true);
}
/// arguments that mean nothing
fn refused(args: &[&'static str]) {
    if sta::pick("call", 2) == 1 {
        con::set(&[""; 4], &[]);
        con::call_with(args);
        program::run();
        sta::check(false, "refused");
    }
    sta::check(true, "not-called");
}
pub fn entry_call_unknown() {
    refused(&["--rebuild"]);
}
