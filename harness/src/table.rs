//! Tables of things that are not pieces of a cube: how they are built and kept on disk.
use crate::model::disk;
use crate::sta;
use barbarosa::cube3::mus::cache;
use barbarosa::cube3::mus::deindex::Deindexable;
use barbarosa::cube3::mus::index::{OrientationIndexable, PositionIndexable};
use barbarosa::cube_n::moves::{Amount, AxisMove};
use barbarosa::cube_n::space::Axis;
use barbarosa::generic::Movable;

/// a thing with `P` places and `O` orientations, of which each turn makes another
#[derive(Clone)]
struct Thing<const P: usize, const O: usize>(usize);
static mut TO: [[usize; 18]; 300] = [[0; 18]; 300];
fn number(m: &AxisMove) -> usize {
    let f = match m.face.axis {
        Axis::X => 0,
        Axis::Y => 1,
        Axis::Z => 2,
    } * 2
        + match m.face.direction {
            barbarosa::cube_n::space::Direction::Positive => 0,
            barbarosa::cube_n::space::Direction::Negative => 1,
        };
    f * 3
        + match m.amount {
            Amount::Single => 0,
            Amount::Double => 1,
            Amount::Inverse => 2,
        }
}
impl<const P: usize, const O: usize> Movable<AxisMove> for Thing<P, O> {
    fn apply(&mut self, m: &AxisMove) {
        self.0 = unsafe { TO[self.0][number(m)] };
    }
}
impl<const P: usize, const O: usize> PositionIndexable for Thing<P, O> {
    fn position_index(&self) -> usize {
        self.0 / O
    }
    const POSITION_SET_SIZE: usize = P;
}
impl<const P: usize, const O: usize> OrientationIndexable for Thing<P, O> {
    fn orientation_index(&self) -> usize {
        self.0 % O
    }
    const ORIENTATION_SET_SIZE: usize = O;
}
impl<const P: usize, const O: usize> Deindexable for Thing<P, O> {
    fn from_index(index: usize) -> Self {
        Thing(index)
    }
}
const FILE: &str = "mus-cache/thing.barbarosa";
impl<const P: usize, const O: usize> cache::verif::DiskCacheable for Thing<P, O> {
    const PATH: &'static str = FILE;
}
fn distances<const N: usize>() -> [u8; N] {
    let mut d = [200; N];
    d[0] = 0;
    for _ in 1..N.min(12) {
        for a in 0..N {
            for k in 0..18 {
                let b = unsafe { TO[a][k] };
                if d[a] + 1 < d[b] {
                    d[b] = d[a] + 1;
                }
            }
        }
    }
    d
}
/// building from nothing
fn build<const P: usize, const O: usize, const N: usize>() {
    let d = distances::<N>();
    for a in 0..N {
        sta::assume(d[a] < 200);
    }
    disk::set(disk::State { folder: sta::any("folder"), ..disk::EMPTY });
    let r = cache::verif::load_or_build_partial::<Thing<P, O>>();
    let Ok(table) = r else {
        sta::check(false, "built");
        return;
    };
    sta::check(table.len() == N, "one-entry-each");
    for a in 0..N {
        sta::check(table[a] == d[a], "fewest-moves");
    }
    sta::check(disk::holds(FILE, &d), "written");
}
/// `faces` of the faces turn in any way that is back after four times, the others do nothing
fn any_turns<const N: usize, const W: usize>(ways: &[[usize; N]; W], faces: usize) {
    for f in 0..6 {
        let way = if f < faces { sta::pick("way", W) } else { 0 };
        for a in 0..N {
            let once = ways[way][a];
            let twice = ways[way][once];
            let at = 5 * f % 6 * 3;
            unsafe {
                TO[a][at] = once;
                TO[a][at + 1] = twice;
                TO[a][at + 2] = ways[way][twice];
            }
        }
    }
}
const TWO: [[usize; 2]; 2] = [[0, 1], [1, 0]];
const THREE: [[usize; 3]; 4] = [[0, 1, 2], [1, 0, 2], [0, 2, 1], [2, 1, 0]];
#[rustfmt::skip]
const FOUR: [[usize; 4]; 16] = [
    [0, 1, 2, 3], [1, 0, 2, 3], [2, 1, 0, 3], [3, 1, 2, 0], [0, 2, 1, 3], [0, 3, 2, 1], [0, 1, 3, 2],
    [1, 0, 3, 2], [2, 3, 0, 1], [3, 2, 1, 0],
    [1, 2, 3, 0], [1, 3, 0, 2], [2, 0, 3, 1], [2, 3, 1, 0], [3, 0, 1, 2], [3, 2, 0, 1],
];
pub fn entry_build_two() {
    any_turns(&TWO, 6);
    build::<1, 2, 2>();
}
pub fn entry_build_three() {
    any_turns(&THREE, 3);
    build::<3, 1, 3>();
}
pub fn entry_build_four() {
    any_turns(&FOUR, 2);
    build::<2, 2, 4>();
}
/// a long way along which two faces have to be turned in turn
fn chain<const N: usize>(face: usize, other: usize) {
    for a in 0..N {
        for k in 0..18 {
            let up = if k / 3 == face { 0 } else { 1 };
            let there = if a % 2 == up { a + 1 } else { a - (a > 0) as usize };
            let turns = (k / 3 == face || k / 3 == other) && k % 3 != 1 && there < N;
            unsafe { TO[a][k] = if turns && (a > 0 || up == 0) { there } else { a } };
        }
    }
}
pub fn entry_build_chain() {
    let face = sta::pick("face", 6);
    let other = sta::pick("other", 6);
    sta::assume(other != face);
    chain::<6>(face, other);
    build::<3, 2, 6>();
}
/// as long as the longest way of the corners of a cube
pub fn entry_build_eleven() {
    let face = sta::pick("face", 6);
    chain::<12>(face, (face + 1) % 6);
    build::<6, 2, 12>();
}

fn kind(k: usize) -> std::io::ErrorKind {
    disk::KINDS[k]
}
/// whatever the disk holds and whatever fails
pub fn entry_load_or_build() {
    const N: usize = 3;
    chain::<N>(1, 4);
    let table = [0, 1, 2];
    let exists: bool = sta::any("exists");
    let folder: bool = sta::any("folder");
    sta::assume(folder || !exists);
    let len = sta::pick("length", 6);
    let content: [u8; 5] = core::array::from_fn(|_| sta::pick("byte", 3) as u8);
    let (read, write, create) = (sta::pick("read-fails", disk::KINDS.len() + 1), sta::pick("write-fails", disk::KINDS.len() + 1), sta::pick("create-fails", disk::KINDS.len() + 1));
    // what is not there fails by not being there
    sta::assume(exists || read == disk::KINDS.len());
    disk::set(disk::State {
        folder,
        files: [if exists { disk::stored(FILE, content[..len].to_vec()) } else { None }, None, None],
        read_fails: read,
        write_fails: write,
        create_fails: create,
        ..disk::EMPTY
    });
    let r = cache::verif::load_or_build_partial::<Thing<1, N>>();
    sta::check(disk::only(FILE), "right-file");
    let none = disk::KINDS.len();
    // what fails by itself is not the absence of the file: `KINDS` does not include it
    if read < none {
        sta::check(matches!(&r, Err(e) if e.kind() == kind(read)), "read-error-returned");
        sta::check(disk::writes() == 0, "read-error-writes-nothing");
    } else if exists {
        if len == N {
            sta::check(matches!(&r, Ok(t) if t[..] == content[..N]), "file-returned");
        } else {
            sta::check(r.is_err(), "wrong-length-refused");
        }
        sta::check(disk::writes() == 0, "file-not-overwritten");
        sta::check(disk::holds(FILE, &content[..len]), "file-kept");
    } else if !folder && create < none {
        sta::check(matches!(&r, Err(e) if e.kind() == kind(create)), "create-error-returned");
    } else if write < none {
        sta::check(matches!(&r, Err(e) if e.kind() == kind(write)), "write-error-returned");
    } else {
        sta::check(matches!(&r, Ok(t) if t[..] == table[..]), "built");
        sta::check(disk::holds(FILE, &table), "written");
    }
}

pub fn entry_build_three_more() {
    any_turns(&THREE, 6);
    build::<1, 3, 3>();
}
pub fn entry_build_four_more() {
    any_turns(&FOUR, 5);
    build::<4, 1, 4>();
}
/// many things of which one is far away
pub fn entry_build_many() {
    // four digits of which each turn changes one
    const SIZE: [usize; 6] = [1, 4, 16, 4, 16, 64];
    for a in 0..256 {
        for k in 0..18 {
            let size = SIZE[k / 3];
            let d = a / size % 4;
            unsafe { TO[a][k] = a - d * size + (d + k % 3 + 1) % 4 * size };
        }
    }
    for k in 0..18 {
        unsafe { TO[256][k] = 256 };
    }
    for (a, b) in [(63, 127), (191, 191), (255, 256)] {
        for k in 15..18 {
            unsafe {
                TO[a][k] = if k == 16 { a } else { b };
                TO[b][k] = if k == 16 { b } else { a };
            }
        }
    }
    build::<257, 1, 257>();
}
