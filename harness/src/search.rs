//! Searching on arbitrary small graphs.
use crate::sta;
use barbarosa::generic::search::ida::IDASearcher;
use barbarosa::generic::search::{Searcher, Solver};
use barbarosa::generic::{Cube, Movable, Move};

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Node(pub usize);
#[derive(Clone, PartialEq, Debug)]
pub struct Arc(pub usize);
impl Move for Arc {
    fn inverse(&self) -> Self {
        Arc(self.0 ^ 1)
    }
}
impl Movable<Arc> for Node {
    fn apply(&mut self, _: &Arc) {
        sta::check(false, "search-does-not-turn-by-itself");
    }
}
impl Cube for Node {
    const SOLVED: Self = Node(0);
}
impl barbarosa::generic::moves::AsMove for Node {
    type Move = Arc;
}
const INF: usize = 9;
struct Graph<const N: usize, const K: usize> {
    start: usize,
    /// N stands for no arc
    to: [[usize; K]; N],
    h: [usize; N],
}
fn graph<const N: usize, const K: usize>(hmax: usize, gaps: bool) -> Graph<N, K> {
    let start = sta::pick("start", N);
    let to = core::array::from_fn(|_| core::array::from_fn(|_| sta::pick("to", if gaps { N + 1 } else { N })));
    let h = core::array::from_fn(|_| sta::pick("h", hmax + 1));
    Graph { start, to, h }
}
impl<const N: usize, const K: usize> Graph<N, K> {
    fn distances(&self, target: &[bool; N]) -> [usize; N] {
        let mut dist = [INF; N];
        for a in 0..N {
            if target[a] {
                dist[a] = 0;
            }
        }
        for _ in 0..N {
            for a in 0..N {
                for k in 0..K {
                    let b = self.to[a][k];
                    if b < N {
                        let d = dist[b] + 1;
                        if d < dist[a] {
                            dist[a] = d;
                        }
                    }
                }
            }
        }
        dist
    }
    fn successors(&self, c: &Node) -> impl IntoIterator<Item = (Node, Arc)> {
        let row = self.to[c.0];
        core::array::from_fn::<Option<(Node, Arc)>, K, _>(|k| if row[k] < N { Some((Node(row[k]), Arc(k))) } else { None }).into_iter().flatten()
    }
    fn follow(&self, alg: &[Arc]) -> usize {
        let mut at = self.start;
        for m in alg {
            at = self.to[at][m.0];
        }
        at
    }
}
/// any graph, any targets, any estimates in steps of `1 / unit`
fn search<const N: usize, const K: usize>(hmax: usize, max_depth: i32, gaps: bool, unit: usize) {
    let g = graph::<N, K>(hmax, gaps);
    let target: [bool; N] = core::array::from_fn(|_| sta::any("target"));
    let dist = g.distances(&target);
    let mut admissible = true;
    for a in 0..N {
        admissible &= g.h[a] <= dist[a] * unit;
    }
    let s = IDASearcher::new(|c: &Node| g.h[c.0] as f32 / unit as f32, |c: &Node| g.successors(c), max_depth);
    match s.search(&Node(g.start), |c| target[c.0]) {
        Some((alg, end)) => {
            sta::check(Node(g.follow(&alg.moves)) == end, "alg-leads-there");
            sta::check(target[end.0], "target");
            if admissible {
                sta::check(alg.moves.len() == dist[g.start], "shortest");
            }
        }
        None => {
            if admissible {
                // the bound starts at the estimate and grows each round, by one when estimates are whole numbers
                sta::check(dist[g.start] as i32 > max_depth / unit as i32, "found-if-near");
            }
        }
    }
}
/// solving is searching for the solved state
fn solve<const N: usize, const K: usize>(max_depth: i32) {
    let g = graph::<N, K>(0, true);
    let mut target = [false; N];
    target[0] = true;
    let dist = g.distances(&target);
    let s = IDASearcher::new(|_: &Node| 0.0, |c: &Node| g.successors(c), max_depth);
    match s.solve(&Node(g.start)) {
        Some(alg) => {
            sta::check(g.follow(&alg.moves) == 0, "solves");
            sta::check(alg.moves.len() == dist[g.start], "shortest-solution");
        }
        None => sta::check(dist[g.start] as i32 > max_depth, "solved-if-near"),
    }
}
pub fn entry_graph2() {
    search::<2, 2>(2, 4, true, 1);
}
pub fn entry_graph3() {
    search::<3, 1>(2, 4, true, 1);
}
pub fn entry_graph3b() {
    search::<3, 2>(2, 3, true, 1);
}
pub fn entry_graph3_short() {
    search::<3, 2>(2, 1, true, 1);
}
pub fn entry_graph3_here() {
    search::<3, 2>(2, 0, true, 1);
}
pub fn entry_graph3_half() {
    search::<3, 2>(4, 4, true, 2);
}
pub fn entry_graph4() {
    search::<4, 2>(3, 3, true, 1);
}
pub fn entry_graph4_half() {
    search::<4, 2>(5, 6, true, 2);
}
pub fn entry_graph5() {
    search::<5, 1>(4, 4, true, 1);
}
pub fn entry_graph5b() {
    search::<5, 2>(0, 4, true, 1);
}
pub fn entry_graph_solve() {
    solve::<4, 2>(3);
}
pub fn entry_graph_solve_short() {
    solve::<4, 2>(2);
}
/// a line of N places with estimates of half or all of the distance to its end
fn line<const N: usize>(max_depth: i32, part: usize, start: usize) {
    let s = IDASearcher::new(
        |c: &Node| ((N - 1 - c.0) * part / 2) as f32,
        |c: &Node| {
            let at = c.0;
            [(Node(if at > 0 { at - 1 } else { 0 }), Arc(1)), (Node(if at + 1 < N { at + 1 } else { at }), Arc(0))]
        },
        max_depth,
    );
    match s.search(&Node(start), |c| c.0 == N - 1) {
        Some((alg, end)) => {
            sta::check(end == Node(N - 1), "target");
            sta::check(alg.moves.len() == N - 1 - start, "shortest");
            sta::check(alg.moves.iter().all(|m| m.0 == 0), "alg-leads-there");
        }
        None => sta::check(N - 1 - start > max_depth as usize, "found-if-near"),
    }
}
pub fn entry_line40() {
    line::<41>(60, 2, sta::pick("start", 41));
}
pub fn entry_line150() {
    line::<151>(160, 2, sta::pick("start", 3));
}
pub fn entry_line8() {
    line::<9>(8, 1, sta::pick("start", 9));
}
