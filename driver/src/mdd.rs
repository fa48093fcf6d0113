//! Decision-diagram value domain.
//!
//! An abstract scalar is a canonical (hash-consed, ordered) multi-valued decision diagram over the
//! finite *input classes* of an analysis; its leaves are the flat/interval/pointer abstract domain
//! `Leaf`.  Joining two values under a condition is `ite`, so joins at control-flow joins are exact
//! with respect to the input partition.
use rustc_data_structures::fx::{FxHashMap, FxHashSet};

pub type N = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Leaf {
    Int(u128),
    Ptr { alloc: u32, off: i64 },
    Undef,
    Top,
    /// unsigned interval [lo, hi], inclusive; lo < hi
    Range(u128, u128),
    /// opaque term (uninterpreted value)
    Sym(u32),
    /// bytes lo..lo+len of a value of `full` bytes whose bytes are not known one by one
    Frag { of: N, full: u32, lo: u32, len: u32 },
}

#[derive(Clone, Debug)]
pub enum Node {
    Leaf(Leaf),
    Br { var: u32, ch: Box<[N]> },
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub dom: u32,
}

pub struct Mdd {
    pub nodes: Vec<Node>,
    leaf_ids: FxHashMap<Leaf, N>,
    uniq: FxHashMap<(u32, Box<[N]>), N>,
    pub vars: Vec<VarInfo>,
    cache2: FxHashMap<(u64, N, N), N>,
    cache_ite: FxHashMap<(N, N, N), N>,
    cache_restrict: FxHashMap<(N, N), N>,
    leaves_cache: FxHashMap<N, std::rc::Rc<Vec<N>>>,
    pub t: N,
    pub f: N,
    pub undef: N,
    pub top: N,
    pub max_nodes: usize,
    pub overflow: bool,
    /// no more nodes than these for the value being read, and whether it had needed more
    limit: usize,
    over: bool,
}

pub const DC: N = u32::MAX; // don't care marker (only inside restrict)

impl Mdd {
    pub fn new() -> Self {
        let mut m = Mdd {
            nodes: vec![],
            leaf_ids: Default::default(),
            uniq: Default::default(),
            vars: vec![],
            cache2: Default::default(),
            cache_ite: Default::default(),
            cache_restrict: Default::default(),
            leaves_cache: Default::default(),
            t: 0,
            f: 0,
            undef: 0,
            top: 0,
            max_nodes: 150_000_000,
            overflow: false,
            limit: usize::MAX,
            over: false,
        };
        m.f = m.leaf(Leaf::Int(0));
        m.t = m.leaf(Leaf::Int(1));
        m.undef = m.leaf(Leaf::Undef);
        m.top = m.leaf(Leaf::Top);
        m
    }
    pub fn new_var(&mut self, name: &str, dom: u32) -> u32 {
        self.vars.push(VarInfo { name: name.to_string(), dom });
        (self.vars.len() - 1) as u32
    }
    pub fn leaf(&mut self, l: Leaf) -> N {
        if let Some(&n) = self.leaf_ids.get(&l) {
            return n;
        }
        let id = self.nodes.len() as N;
        self.nodes.push(Node::Leaf(l));
        self.leaf_ids.insert(l, id);
        id
    }
    pub fn int(&mut self, v: u128) -> N {
        self.leaf(Leaf::Int(v))
    }
    pub fn boolean(&self, b: bool) -> N {
        if b { self.t } else { self.f }
    }
    pub fn mk(&mut self, var: u32, ch: Vec<N>) -> N {
        debug_assert_eq!(ch.len(), self.vars[var as usize].dom as usize);
        if ch.iter().all(|c| *c == ch[0]) {
            return ch[0];
        }
        let ch: Box<[N]> = ch.into_boxed_slice();
        let key = (var, ch);
        if let Some(&n) = self.uniq.get(&key) {
            return n;
        }
        let id = self.nodes.len() as N;
        if self.nodes.len() > self.max_nodes {
            self.overflow = true;
        }
        self.nodes.push(Node::Br { var, ch: key.1.clone() });
        self.uniq.insert(key, id);
        id
    }
    /// variable node whose child i is `vals[i]` (leaves or nodes over later variables)
    pub fn table(&mut self, var: u32, vals: Vec<N>) -> N {
        // children may contain arbitrary vars: build via ite chain if order violated
        let ok = vals.iter().all(|&c| match &self.nodes[c as usize] {
            Node::Leaf(_) => true,
            Node::Br { var: v, .. } => *v > var,
        });
        if ok {
            return self.mk(var, vals);
        }
        let dom = vals.len();
        let mut acc = vals[dom - 1];
        for i in (0..dom - 1).rev() {
            let mut sel = vec![self.f; dom];
            sel[i] = self.t;
            let s = self.mk(var, sel);
            acc = self.ite(s, vals[i], acc);
        }
        acc
    }
    #[inline]
    pub fn as_leaf(&self, n: N) -> Option<Leaf> {
        match &self.nodes[n as usize] {
            Node::Leaf(l) => Some(*l),
            _ => None,
        }
    }
    #[inline]
    pub fn as_int(&self, n: N) -> Option<u128> {
        match &self.nodes[n as usize] {
            Node::Leaf(Leaf::Int(l)) => Some(*l),
            _ => None,
        }
    }
    #[inline]
    fn var_of(&self, n: N) -> u32 {
        match &self.nodes[n as usize] {
            Node::Leaf(_) => u32::MAX,
            Node::Br { var, .. } => *var,
        }
    }
    #[inline]
    fn child(&self, n: N, var: u32, i: usize) -> N {
        match &self.nodes[n as usize] {
            Node::Br { var: v, ch } if *v == var => ch[i],
            _ => n,
        }
    }
    pub fn map2_cached(&mut self, code: u64, a: N, b: N, f: &mut dyn FnMut(&mut Mdd, Leaf, Leaf) -> N) -> N {
        if let (Some(x), Some(y)) = (self.as_leaf(a), self.as_leaf(b)) {
            return f(self, x, y);
        }
        if let Some(&r) = self.cache2.get(&(code, a, b)) {
            return r;
        }
        let v = self.var_of(a).min(self.var_of(b));
        let dom = self.vars[v as usize].dom as usize;
        let mut ch = Vec::with_capacity(dom);
        for i in 0..dom {
            let (x, y) = (self.child(a, v, i), self.child(b, v, i));
            ch.push(self.map2_cached(code, x, y, f));
        }
        let r = self.mk(v, ch);
        self.cache2.insert((code, a, b), r);
        r
    }
    pub fn map1_cached(&mut self, code: u64, a: N, f: &mut dyn FnMut(&mut Mdd, Leaf) -> N) -> N {
        let z = self.f;
        self.map2_cached(code | (1 << 63), a, z, &mut |m, x, _| f(m, x))
    }
    /// uncached-across-calls map over leaves (local memo)
    pub fn map1(&mut self, a: N, f: &mut dyn FnMut(&mut Mdd, Leaf) -> N) -> N {
        let mut memo = FxHashMap::default();
        self.map1_rec(a, f, &mut memo)
    }
    fn map1_rec(&mut self, a: N, f: &mut dyn FnMut(&mut Mdd, Leaf) -> N, memo: &mut FxHashMap<N, N>) -> N {
        if let Some(x) = self.as_leaf(a) {
            return f(self, x);
        }
        if let Some(&r) = memo.get(&a) {
            return r;
        }
        let (v, ch) = match &self.nodes[a as usize] {
            Node::Br { var, ch } => (*var, ch.clone()),
            _ => unreachable!(),
        };
        let mut out = Vec::with_capacity(ch.len());
        for c in ch.iter() {
            out.push(self.map1_rec(*c, f, memo));
        }
        let r = self.table(v, out);
        memo.insert(a, r);
        r
    }
    pub fn ite(&mut self, c: N, a: N, b: N) -> N {
        if a == b {
            return a;
        }
        if let Some(l) = self.as_leaf(c) {
            return match l {
                Leaf::Int(0) => b,
                Leaf::Int(_) => a,
                _ => {
                    let top = self.top;
                    top
                }
            };
        }
        if a == self.t && b == self.f {
            return c;
        }
        if let Some(&r) = self.cache_ite.get(&(c, a, b)) {
            return r;
        }
        if self.over || self.nodes.len() > self.limit {
            self.over = true;
            return self.top;
        }
        let v = self.var_of(c).min(self.var_of(a)).min(self.var_of(b));
        let dom = self.vars[v as usize].dom as usize;
        let mut ch = Vec::with_capacity(dom);
        for i in 0..dom {
            let (x, y, z) = (self.child(c, v, i), self.child(a, v, i), self.child(b, v, i));
            ch.push(self.ite(x, y, z));
        }
        if self.over {
            return self.top;
        }
        let r = self.mk(v, ch);
        self.cache_ite.insert((c, a, b), r);
        r
    }
    /// what `f` computes, or nothing if that takes too many nodes
    pub fn limited<T>(&mut self, nodes: usize, f: impl FnOnce(&mut Mdd) -> T) -> Option<T> {
        self.limit = self.nodes.len().saturating_add(nodes);
        let r = f(self);
        self.limit = usize::MAX;
        if std::mem::take(&mut self.over) { None } else { Some(r) }
    }
    pub fn and(&mut self, a: N, b: N) -> N {
        let f = self.f;
        if a == b || b == self.t {
            return a;
        }
        if a == self.t {
            return b;
        }
        self.ite(a, b, f)
    }
    pub fn or(&mut self, a: N, b: N) -> N {
        let t = self.t;
        if a == b || b == self.f {
            return a;
        }
        if a == self.f {
            return b;
        }
        self.ite(a, t, b)
    }
    pub fn not(&mut self, a: N) -> N {
        let (t, f) = (self.t, self.f);
        self.ite(a, f, t)
    }
    pub fn leaves(&mut self, a: N) -> std::rc::Rc<Vec<N>> {
        if let Some(r) = self.leaves_cache.get(&a) {
            return r.clone();
        }
        let mut seen = FxHashSet::default();
        let mut out = vec![];
        let mut stack = vec![a];
        while let Some(n) = stack.pop() {
            if !seen.insert(n) {
                continue;
            }
            match &self.nodes[n as usize] {
                Node::Leaf(_) => out.push(n),
                Node::Br { ch, .. } => stack.extend(ch.iter().copied()),
            }
        }
        out.sort();
        let r = std::rc::Rc::new(out);
        self.leaves_cache.insert(a, r.clone());
        r
    }
    /// indicator that `a` has exactly leaf id `l`
    pub fn is_leaf_eq(&mut self, a: N, l: N) -> N {
        if self.as_leaf(a).is_some() {
            return self.boolean(a == l);
        }
        let (t, f) = (self.t, self.f);
        let lv = self.as_leaf(l).unwrap();
        self.map2_cached(0xE0, a, l, &mut |_, x, _| if x == lv { t } else { f })
    }
    /// simplify `a` given care set `pc`; result agrees with `a` on pc; leaves not reachable under pc vanish
    pub fn restrict(&mut self, a: N, pc: N) -> N {
        if pc == self.t || self.as_leaf(a).is_some() {
            return a;
        }
        let r = self.restrict_rec(a, pc);
        if r == DC { a } else { r }
    }
    fn restrict_rec(&mut self, a: N, pc: N) -> N {
        if pc == self.f {
            return DC;
        }
        if pc == self.t || self.as_leaf(a).is_some() {
            return a;
        }
        if let Some(&r) = self.cache_restrict.get(&(a, pc)) {
            return r;
        }
        let (va, vp) = (self.var_of(a), self.var_of(pc));
        let r = if vp < va {
            let ch = match &self.nodes[pc as usize] {
                Node::Br { ch, .. } => ch.clone(),
                _ => unreachable!(),
            };
            let mut acc = self.f;
            for c in ch.iter() {
                acc = self.or(acc, *c);
            }
            self.restrict_rec(a, acc)
        } else {
            let dom = self.vars[va as usize].dom as usize;
            let mut ch = Vec::with_capacity(dom);
            for i in 0..dom {
                let (x, p) = (self.child(a, va, i), self.child(pc, va, i));
                ch.push(self.restrict_rec(x, p));
            }
            match ch.iter().copied().find(|c| *c != DC) {
                None => DC,
                Some(fst) => {
                    for c in ch.iter_mut() {
                        if *c == DC {
                            *c = fst;
                        }
                    }
                    self.mk(va, ch)
                }
            }
        };
        self.cache_restrict.insert((a, pc), r);
        r
    }
    /// one satisfying assignment of boolean diagram (leaf 1), as (var, value) list
    pub fn sat_one(&self, a: N) -> Option<Vec<(u32, u32)>> {
        let mut out = vec![];
        let mut dead = FxHashSet::default();
        fn rec(m: &Mdd, a: N, out: &mut Vec<(u32, u32)>, dead: &mut FxHashSet<N>) -> bool {
            match &m.nodes[a as usize] {
                Node::Leaf(Leaf::Int(0)) => false,
                Node::Leaf(_) => true,
                Node::Br { var, ch } => {
                    if dead.contains(&a) {
                        return false;
                    }
                    for (i, c) in ch.iter().enumerate() {
                        out.push((*var, i as u32));
                        if rec(m, *c, out, dead) {
                            return true;
                        }
                        out.pop();
                    }
                    dead.insert(a);
                    false
                }
            }
        }
        if rec(self, a, &mut out, &mut dead) { Some(out) } else { None }
    }
    pub fn clear_caches(&mut self) {
        self.cache2.clear();
        self.cache_ite.clear();
        self.cache_restrict.clear();
        self.leaves_cache.clear();
    }
    pub fn describe(&self, asg: &[(u32, u32)], names: &dyn Fn(u32, u32) -> String) -> String {
        asg.iter().map(|(v, i)| names(*v, *i)).collect::<Vec<_>>().join(", ")
    }
}
