//! Algs: applying them, converting them, normal forms, enumerations, random algs, connecting states.
use crate::geo::{fix, AnyMove};
use crate::inverse::Tok;
use crate::random::AnyRng;
use crate::sta;
use crate::view::View;
use barbarosa::cube_n::moves::{Amount, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::*;
use barbarosa::generic::moves::{connect, AsMove};
use barbarosa::generic::{Alg, Cube, Movable, Move};

/// a thing that only remembers what was done to it
#[derive(Clone, PartialEq)]
struct Log(Vec<Tok>);
impl Movable<Tok> for Log {
    fn apply(&mut self, m: &Tok) {
        self.0.push(m.clone());
    }
}
fn toks(n: usize) -> Vec<Tok> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(Tok(sta::pick("tok", 5)));
    }
    v
}
fn fold(n: usize) {
    let v = toks(n);
    let alg = Alg::<Tok>::new(v.clone());
    let mut a = Log(Vec::new());
    a.apply(&alg);
    sta::check(a.0 == v, "apply-alg");
    sta::check(alg.moves == v, "alg-kept");
    let mut b = Log(Vec::new());
    <Log as Movable<[Tok]>>::apply(&mut b, &v[..]);
    sta::check(b.0 == v, "apply-slice");
    let c = Log(Vec::new()).moved(&alg);
    sta::check(c.0 == v, "moved");
    let d: Alg<Tok> = v.clone().into_iter().collect();
    sta::check(d.moves == v, "collect");
    sta::check(Alg::<Tok>::empty().moves.is_empty(), "empty");
}
macro_rules! sizes {
    ($f:ident: $($e:ident $n:literal),*) => { $(pub fn $e() { $f($n); })* };
}
sizes!(fold: entry_fold0 0, entry_fold1 1, entry_fold2 2, entry_fold3 3, entry_fold4 4, entry_fold7 7, entry_fold12 12, entry_fold33 33, entry_fold200 200);

/// the same effect on an arbitrary cube
fn same_on<A: ?Sized, B: ?Sized>(t: &'static str, t2: &'static str, a: &A, b: &B)
where
    Cube3: Movable<A> + Movable<B>,
{
    let mut x = Cube3::new_solved();
    sta::havoc(&mut x, "s");
    let mut y = x.clone();
    <Cube3 as Movable<A>>::apply(&mut x, a);
    <Cube3 as Movable<B>>::apply(&mut y, b);
    sta::pieces(t, &x);
    sta::pieces(t2, &y);
}
/// a move or a list of moves of every type against the face turns it stands for
pub fn entry_meaning() {
    fix::<Cube3, AxisMove>(Cube3::new_solved);
    // quarter turns
    let q: QuarterAxisMove = sta::any("quarter");
    let am = AxisMove::new(q.face.clone(), if q.direction == Direction::Positive { Amount::Single } else { Amount::Inverse });
    same_on("quarter", "quarter'", &q, &am);
    same_on("quarter-as-axis", "quarter-as-axis'", &AxisMove::from(&q), &am);
    // a turn as quarter turns
    let m: AxisMove = sta::any("m");
    let qs = Alg::<QuarterAxisMove>::from(Alg::<AxisMove>::new(vec![m.clone()]));
    same_on("as-quarters", "as-quarters'", &qs, &m);
    // non redundant moves
    let s = NonRedundantAxisMove::from(m.clone());
    same_on("single", "single'", &s, &m);
    let d = NonRedundantAxisMove::Double { axis: sta::any("axis"), amount_positive: sta::any("amount+"), amount_negative: sta::any("amount-") };
    let NonRedundantAxisMove::Double { axis, amount_positive, amount_negative } = d.clone() else { return };
    let two = vec![
        AxisMove::new(Face::new(axis, Direction::Positive), amount_positive),
        AxisMove::new(Face::new(axis, Direction::Negative), amount_negative),
    ];
    same_on("double", "double'", &d, &two[..]);
    same_on("double-as-alg", "double-as-alg'", &Alg::<AxisMove>::from(d.clone()), &two[..]);
    same_on("single-as-alg", "single-as-alg'", &Alg::<AxisMove>::from(s.clone()), &m);
    sta::check(d.axis() == axis, "axis-of-double");
    sta::check(s.axis() == m.face.axis, "axis-of-single");
}
/// converting a list converts every element in order
fn list_quarters(n: usize) {
    let mut v = Vec::new();
    let mut want = Vec::new();
    for _ in 0..n {
        let m: AxisMove = sta::any("m");
        v.push(m.clone());
        want.extend(Alg::<QuarterAxisMove>::from(Alg::<AxisMove>::new(vec![m])).moves);
    }
    let got = Alg::<QuarterAxisMove>::from(Alg::<AxisMove>::new(v));
    sta::check(got.moves == want, "quarters-of-list");
}
fn list_nr(n: usize) {
    let mut v = Vec::new();
    let mut want = Vec::new();
    for _ in 0..n {
        let m = NonRedundantAxisMove::any_move();
        v.push(m.clone());
        want.extend(Alg::<AxisMove>::from(m).moves);
    }
    let got = Alg::<AxisMove>::from(Alg::<NonRedundantAxisMove>::new(v));
    sta::check(got.moves == want, "moves-of-list");
}
sizes!(list_quarters: entry_listq0 0, entry_listq2 2, entry_listq3 3, entry_listq4 4, entry_listq9 9);
sizes!(list_nr: entry_listnr0 0, entry_listnr2 2, entry_listnr3 3, entry_listnr4 4, entry_listnr9 9, entry_listnr20 20);
/// long lists, of which a move near the beginning, in the middle and at the end is arbitrary
pub fn entry_list_long() {
    const N: usize = 140;
    let (mut v, mut quarters) = (Vec::new(), Vec::new());
    let (mut w, mut turns) = (Vec::new(), Vec::new());
    for k in 0..N {
        let (f, a) = (Face::iter().nth(k * 5 % 6).unwrap(), [Amount::Single, Amount::Double, Amount::Inverse][k / 2 % 3]);
        let (mut m, mut d) = (AxisMove::new(f.clone(), a), NonRedundantAxisMove::Single(AxisMove::new(f, a)));
        if k % 5 == 1 {
            d = NonRedundantAxisMove::Double { axis: m.face.axis, amount_positive: a, amount_negative: Amount::Double };
        }
        if k == 2 || k == N / 2 || k == N - 1 {
            m = sta::any("m");
            d = NonRedundantAxisMove::any_move();
        }
        quarters.extend(Alg::<QuarterAxisMove>::from(Alg::<AxisMove>::new(vec![m.clone()])).moves);
        v.push(m);
        turns.extend(Alg::<AxisMove>::from(d.clone()).moves);
        w.push(d);
    }
    sta::check(Alg::<QuarterAxisMove>::from(Alg::<AxisMove>::new(v)).moves == quarters, "quarters-of-list");
    sta::check(Alg::<AxisMove>::from(Alg::<NonRedundantAxisMove>::new(w)).moves == turns, "moves-of-list");
}
/// a list of turns at some depth
pub fn entry_widen() {
    let d = sta::pick("depth", 5) as u32;
    let v: Vec<AxisMove> = vec![sta::any("m1"), sta::any("m2"), sta::any("m3")];
    match Alg::<AxisMove>::new(v.clone()).widen::<2>(d) {
        Ok(a) => {
            sta::check(d <= 2, "widen-too-deep");
            sta::check(a.moves.len() == 3, "widen-length");
            for i in 0..3 {
                sta::check(a.moves[i].depth() == d, "widen-depth");
                sta::check(a.moves[i].axis_move == v[i], "widen-move");
            }
        }
        Err(_) => sta::check(d > 2, "widen-refused"),
    }
    match v[0].clone().widen::<1>(d) {
        Ok(w) => sta::check(d <= 1 && w.depth() == d && w.axis_move == v[0], "widen-one"),
        Err(_) => sta::check(d > 1, "widen-one-refused"),
    }
}
/// any depth for a list of any turns, however long
fn widen_list(n: usize) {
    let d = sta::pick("depth", 5) as u32;
    let v: Vec<AxisMove> = (0..n).map(|_| sta::any("m")).collect();
    match Alg::<AxisMove>::new(v.clone()).widen::<2>(d) {
        Ok(a) => {
            sta::check(d <= 2 || n == 0, "widen-too-deep");
            sta::check(a.moves.len() == n, "widen-length");
            for i in 0..n {
                sta::check(a.moves[i].depth() == d, "widen-depth");
                sta::check(a.moves[i].axis_move == v[i], "widen-move");
            }
        }
        Err(_) => sta::check(d > 2, "widen-refused"),
    }
}
sizes!(widen_list: entry_widen0 0, entry_widen1 1, entry_widen25 25, entry_widen150 150);

// ---- normal form ----
const MAX: usize = 16;
/// quarter turns of the positive and of the negative face of an axis, axis after axis
#[derive(Clone, Copy, PartialEq)]
struct Blocks<const MAX: usize> {
    n: usize,
    b: [(usize, usize, usize); MAX],
}
fn blocks(moves: &[AxisMove]) -> Blocks<MAX> {
    blocks_in(moves)
}
fn blocks_in<const MAX: usize>(moves: &[AxisMove]) -> Blocks<MAX> {
    let mut s = Blocks { n: 0, b: [(9, 0, 0); MAX] };
    for m in moves {
        let a = m.face.axis as usize;
        let k = m.amount as usize;
        let pos = m.face.direction == Direction::Positive;
        if s.n == 0 || s.b[s.n - 1].0 != a {
            s.b[s.n] = (a, 0, 0);
            s.n += 1;
        }
        let t = &mut s.b[s.n - 1];
        if pos {
            t.1 = (t.1 + k) % 4;
        } else {
            t.2 = (t.2 + k) % 4;
        }
        if t.1 == 0 && t.2 == 0 {
            *t = (9, 0, 0);
            s.n -= 1;
        }
    }
    s
}
fn shortest<const MAX: usize>(b: &Blocks<MAX>) -> usize {
    let mut n = 0;
    for i in 0..MAX {
        n += (b.b[i].1 != 0) as usize + (b.b[i].2 != 0) as usize;
    }
    n
}
fn normal(v: Vec<AxisMove>) {
    normal_in::<MAX>(v)
}
fn normal_in<const MAX: usize>(v: Vec<AxisMove>) {
    let want = blocks_in::<MAX>(&v);
    let got = Alg::<AxisMove>::new(v).normalized();
    let have = blocks_in::<MAX>(&got.moves);
    sta::check(have == want, "normalized-same-effect");
    sta::check(got.moves.len() == shortest(&want), "normalized-shortest");
}
fn normal_any(n: usize) {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(sta::any::<AxisMove>("m"));
    }
    normal(v);
}
fn some(all: &[(Face, Amount)]) -> AxisMove {
    let i = sta::pick("which", all.len());
    AxisMove::new(all[i].0.clone(), all[i].1)
}
fn normal_of(all: &[(Face, Amount)], n: usize) {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(some(all));
    }
    normal(v);
}
sizes!(normal_any: entry_norm0 0, entry_norm1 1, entry_norm2 2, entry_norm3 3, entry_norm4 4, entry_norm5 5, entry_norm6 6);
use Amount::{Double as D2, Inverse as I3, Single as S1};
pub fn entry_norm_a() {
    normal_of(&[(Face::R, S1), (Face::R, I3), (Face::L, S1), (Face::U, S1)], 7);
}
pub fn entry_norm_b() {
    normal_of(&[(Face::R, S1), (Face::L, I3), (Face::L, D2), (Face::F, I3), (Face::F, S1)], 6);
}
pub fn entry_norm_c() {
    normal_of(&[(Face::U, D2), (Face::D, D2), (Face::R, D2)], 8);
}
pub fn entry_norm_d() {
    normal_of(&[(Face::U, S1), (Face::D, I3), (Face::D, S1), (Face::U, I3), (Face::B, S1), (Face::B, I3)], 6);
}
pub fn entry_norm_e() {
    normal_of(&[(Face::R, S1), (Face::R, I3), (Face::U, S1), (Face::U, I3)], 9);
}
pub fn entry_norm_f() {
    normal_of(&[(Face::R, S1), (Face::L, I3), (Face::R, I3), (Face::L, S1)], 9);
}
pub fn entry_norm_g() {
    normal_of(&[(Face::U, S1), (Face::D, D2), (Face::U, I3), (Face::L, S1), (Face::R, S1), (Face::L, I3)], 7);
}
pub fn entry_norm_h() {
    normal_of(&[(Face::R, S1), (Face::R, I3), (Face::L, S1), (Face::L, I3), (Face::U, S1), (Face::U, I3)], 9);
}
/// turns none of which can be merged with its neighbours, parallel ones among them
const LONG: [(Face, Amount); 24] = [
    (Face::R, S1), (Face::U, D2), (Face::F, I3), (Face::B, S1), (Face::L, I3), (Face::D, S1), (Face::U, I3), (Face::R, D2),
    (Face::L, D2), (Face::F, S1), (Face::U, S1), (Face::B, I3), (Face::D, D2), (Face::F, D2), (Face::R, I3), (Face::D, I3),
    (Face::L, S1), (Face::U, S1), (Face::F, S1), (Face::R, S1), (Face::B, D2), (Face::L, S1), (Face::R, S1), (Face::U, D2),
];
fn long(i: usize) -> AxisMove {
    AxisMove::new(LONG[i].0.clone(), LONG[i].1)
}
/// three arbitrary turns between many fixed ones, which come apart where they are or not at all
fn normal_amid(before: usize, after: usize) {
    let mut v = Vec::new();
    for i in 0..before {
        v.push(long(i % 24));
    }
    for _ in 0..3 {
        v.push(sta::any::<AxisMove>("m"));
    }
    for i in 0..after {
        v.push(long((before + i) % 24));
    }
    normal_in::<96>(v);
}
/// as many turns undone after three arbitrary ones, which may cancel
fn normal_back(n: usize) {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(long(i % 24));
    }
    for _ in 0..3 {
        v.push(sta::any::<AxisMove>("m"));
    }
    for i in 0..n {
        v.push(long((n - 1 - i) % 24).inverse());
    }
    normal_in::<96>(v);
}
pub fn entry_norm_begin() {
    normal_amid(0, 40);
}
pub fn entry_norm_amid() {
    normal_amid(19, 21);
}
pub fn entry_norm_end() {
    normal_amid(60, 1);
}
sizes!(normal_back: entry_norm_back5 5, entry_norm_back11 11, entry_norm_back24 24);
/// one turn over and over, which may be any
fn normal_same(n: usize) {
    let m: AxisMove = sta::any("m");
    normal_in::<96>(vec![m; n]);
}
sizes!(normal_same: entry_norm_same21 21, entry_norm_same70 70);

// ---- enumerations ----
pub fn entry_enums() {
    use barbarosa::generic::moves as _;
    sta::out("axis-moves", &AxisMove::all());
    let v: Vec<Face> = Face::iter().collect();
    sta::out("faces", &&v[..]);
    let v: Vec<NonRedundantAxisMove> = NonRedundantAxisMove::all().collect();
    sta::out("non-redundant", &&v[..]);
    for (t, t2, a) in [("x", "not-x", Axis::X), ("y", "not-y", Axis::Y), ("z", "not-z", Axis::Z)] {
        let v: Vec<NonRedundantAxisMove> = NonRedundantAxisMove::of_axis(a).collect();
        sta::out(t, &&v[..]);
        let v: Vec<NonRedundantAxisMove> = NonRedundantAxisMove::given_last_axis(&a).collect();
        sta::out(t2, &&v[..]);
    }
}
pub fn entry_face_index() {
    let f: Face = sta::any("f");
    sta::out("f", &f);
    sta::out("i", &f.index());
}
/// successors of a cube
pub fn entry_successors() {
    fix::<Cube3, AxisMove>(Cube3::new_solved);
    let mut c = Cube3::new_solved();
    sta::havoc(&mut c, "s");
    let mut n = 0;
    let mut seen = Vec::new();
    for (d, m) in c.successors() {
        sta::check(d == c.clone().moved(&m), "successor-is-moved");
        seen.push(m);
        n += 1;
    }
    sta::check(n == 18, "number-of-successors");
    sta::out("moves", &&seen[..]);
}

// ---- random moves and algs ----
fn code(m: &AxisMove) -> usize {
    (m.face.axis as usize * 2 + (m.face.direction == Direction::Positive) as usize) * 4 + m.amount as usize
}
fn random_alg(n: usize) {
    let a = Alg::<AxisMove>::random_with_rng(n, &mut AnyRng);
    sta::check(a.moves.len() == n, "random-length");
    sta::check(shortest(&blocks_in::<32>(&a.moves)) == n, "random-not-redundant");
    if n > 0 {
        sta::out("first", &code(&a.moves[0]));
        sta::out("last", &code(&a.moves[n - 1]));
    }
}
sizes!(random_alg: entry_randalg0 0, entry_randalg1 1, entry_randalg2 2, entry_randalg3 3, entry_randalg4 4, entry_randalg5 5, entry_randalg6 6, entry_randalg7 7, entry_randalg10 10, entry_randalg12 12, entry_randalg16 16, entry_randalg24 24);
/// long ones, for some sequences of draws
fn random_long<const LO: usize, const HI: usize>(n: usize) {
    for base in LO..HI {
        sta::window(0, 0, base);
        let a = Alg::<AxisMove>::random_with_rng(n, &mut AnyRng);
        sta::check(a.moves.len() == n, "random-length");
        sta::check(shortest(&blocks_in::<160>(&a.moves)) == n, "random-not-redundant");
    }
}
pub fn entry_randalg_long() {
    random_long::<0, 3>(150);
}
pub fn entry_randalg_longer() {
    random_long::<3, 6>(137);
}
pub fn entry_randmove() {
    use rand::Rng;
    let a: AxisMove = AnyRng.gen();
    sta::out("axis", &a);
    let q: QuarterAxisMove = AnyRng.gen();
    sta::out("quarter", &q);
    let w: WideAxisMove<0> = AnyRng.gen();
    sta::out("wide0", &w.view());
    let w: WideAxisMove<1> = AnyRng.gen();
    sta::out("wide1", &w.view());
    let w: WideAxisMove<2> = AnyRng.gen();
    sta::out("wide2", &w.view());
    let w: WideAxisMove<5> = AnyRng.gen();
    sta::out("wide5", &w.view());
}
fn random_un(n: usize) {
    let a = Alg::<WideAxisMove<2>>::random_unnormalized_with_rng(n, &mut AnyRng);
    sta::check(a.moves.len() == n, "random-length");
}
sizes!(random_un: entry_randun0 0, entry_randun1 1, entry_randun5 5, entry_randun20 20, entry_randun100 100);
/// with the generator of the thread
fn random_here(n: usize) {
    let a = Alg::<AxisMove>::random(n);
    sta::check(a.moves.len() == n, "random-length");
    sta::check(shortest(&blocks(&a.moves)) == n, "random-not-redundant");
    let u = Alg::<WideAxisMove<2>>::random_unnormalized(n);
    sta::check(u.moves.len() == n, "random-length");
}
sizes!(random_here: entry_randhere0 0, entry_randhere2 2, entry_randhere4 4);

// ---- connecting states ----
#[derive(Clone, PartialEq, Eq, Debug)]
struct Step(usize);
impl Move for Step {
    fn inverse(&self) -> Self {
        unimplemented!()
    }
}
impl strum::IntoEnumIterator for Step {
    type Iterator = std::vec::IntoIter<Step>;
    fn iter() -> Self::Iterator {
        vec![Step(0), Step(1), Step(2), Step(3)].into_iter()
    }
}
/// a graph on three nodes with arbitrary edges
#[derive(Clone, Debug)]
struct Node {
    at: usize,
    to: [[usize; 4]; 3],
}
impl PartialEq for Node {
    fn eq(&self, o: &Self) -> bool {
        self.at == o.at
    }
}
impl Eq for Node {}
impl Movable<Step> for Node {
    fn apply(&mut self, m: &Step) {
        self.at = self.to[self.at][m.0];
    }
}
fn graph() -> [[usize; 4]; 3] {
    core::array::from_fn(|_| core::array::from_fn(|_| sta::pick("edge", 3)))
}
pub fn entry_connect() {
    let to = graph();
    let a = Node { at: sta::pick("from", 3), to };
    let b = Node { at: sta::pick("to", 3), to };
    let mut any = false;
    for k in 0..4 {
        any |= to[a.at][k] == b.at;
    }
    match connect::<Step, Node>(&a, &b) {
        Some(m) => sta::check(to[a.at][m.0] == b.at, "connect-right"),
        None => sta::check(!any, "connect-none"),
    }
}
fn states(n: usize) {
    let to = graph();
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(Node { at: sta::pick("state", 3), to });
    }
    let mut all = true;
    for i in 1..n {
        let mut any = false;
        for k in 0..4 {
            any |= to[v[i - 1].at][k] == v[i].at;
        }
        all &= any;
    }
    match Alg::<Step>::try_from_states(&v) {
        Ok(a) => {
            sta::check(all, "states-connected");
            sta::check(a.moves.len() + 1 == n || (n == 0 && a.moves.is_empty()), "states-length");
            for i in 1..n {
                sta::check(v[i - 1].clone().moved(&a.moves[i - 1]) == v[i], "states-move");
            }
        }
        Err(_) => sta::check(!all, "states-refused"),
    }
}
sizes!(states: entry_states0 0, entry_states1 1, entry_states2 2, entry_states3 3, entry_states4 4, entry_states6 6);
/// many states, of which two beside each other are arbitrary
pub fn entry_states_long() {
    const N: usize = 90;
    // nothing leads from 2 to 1
    let to = [[1, 2, 0, 1], [2, 0, 1, 2], [2, 2, 0, 0]];
    let at = sta::pick("at", N - 1);
    let mut s: [usize; N] = core::array::from_fn(|k| [0, 1, 2, 0, 2, 2][k % 6]);
    s[at] = sta::pick("state", 3);
    s[at + 1] = sta::pick("state", 3);
    let v: Vec<Node> = s.iter().map(|s| Node { at: *s, to }).collect();
    let mut all = true;
    for i in 1..N {
        all &= !(s[i - 1] == 2 && s[i] == 1);
    }
    match Alg::<Step>::try_from_states(&v) {
        Ok(a) => {
            sta::check(all, "states-connected");
            sta::check(a.moves.len() + 1 == N, "states-length");
            for i in 1..N {
                sta::check(to[s[i - 1]][a.moves[i - 1].0] == s[i], "states-move");
            }
        }
        Err(_) => sta::check(!all, "states-refused"),
    }
}
/// cubes connected by a turn
fn connect3<const LO: usize, const BASE: usize>() {
    use rand::distributions::Distribution;
    sta::window(LO, 3, BASE);
    let c: Cube3 = rand::distributions::Standard.sample(&mut AnyRng);
    let m: AxisMove = sta::any("m");
    let d = c.clone().moved(&m);
    sta::check(connect::<AxisMove, Cube3>(&c, &d) == Some(m), "connect-finds-turn");
    sta::check(connect::<AxisMove, Cube3>(&c, &c).is_none(), "connect-same");
}
pub fn entry_connect3a() {
    connect3::<0, 0>();
}
pub fn entry_connect3b() {
    connect3::<9, 3>();
}
pub fn entry_connect3c() {
    connect3::<19, 2>();
}
fn _assert<T: AsMove>() {}
