//! Abstract memory: persistent radix trie of allocations, each a sorted list of typed cells.
use crate::mdd::{Leaf, Mdd, N};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cell {
    pub off: u64,
    pub size: u32,
    pub v: N,
}

#[derive(Clone, Debug)]
pub struct Alloc {
    pub size: u64,
    pub align: u64,
    pub zero: bool,
    pub cells: Vec<Cell>,
}

const BITS: u32 = 5;
const W: usize = 32;
const LEVELS: u32 = 7;

#[derive(Clone)]
enum T {
    Inner([Option<Rc<T>>; W]),
    Leaf([Option<Rc<Alloc>>; W]),
}

#[derive(Clone, Default)]
pub struct Mem {
    root: Option<Rc<T>>,
}

impl Mem {
    pub fn get(&self, id: u32) -> Option<&Alloc> {
        let mut n = self.root.as_deref()?;
        let mut sh = BITS * (LEVELS - 1);
        loop {
            let i = ((id >> sh) as usize) & (W - 1);
            match n {
                T::Inner(c) => n = c[i].as_deref()?,
                T::Leaf(c) => return c[i].as_deref(),
            }
            if sh == 0 {
                unreachable!()
            }
            sh -= BITS;
        }
    }
    pub fn set(&mut self, id: u32, a: Option<Alloc>) {
        if a.is_none() && self.get(id).is_none() {
            return;
        }
        *self.slot(id) = a.map(Rc::new);
    }
    fn slot(&mut self, id: u32) -> &mut Option<Rc<Alloc>> {
        fn go<'a>(n: &'a mut Option<Rc<T>>, id: u32, sh: u32) -> &'a mut Option<Rc<Alloc>> {
            let i = ((id >> sh) as usize) & (W - 1);
            if n.is_none() {
                *n = Some(Rc::new(if sh == 0 {
                    T::Leaf(Default::default())
                } else {
                    T::Inner(Default::default())
                }));
            }
            match Rc::make_mut(n.as_mut().unwrap()) {
                T::Leaf(c) => &mut c[i],
                T::Inner(c) => go(&mut c[i], id, sh - BITS),
            }
        }
        go(&mut self.root, id, BITS * (LEVELS - 1))
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Alloc> {
        if self.get(id).is_none() {
            return None;
        }
        self.slot(id).as_mut().map(Rc::make_mut)
    }

    /// exact join: for every cell, ite(cond, self, other)
    pub fn merge(m: &mut Mdd, cond: N, a: &Mem, b: &Mem) -> Mem {
        fn go(m: &mut Mdd, cond: N, a: &Option<Rc<T>>, b: &Option<Rc<T>>) -> Option<Rc<T>> {
            match (a, b) {
                (None, x) | (x, None) => x.clone(),
                (Some(x), Some(y)) => {
                    if Rc::ptr_eq(x, y) {
                        return Some(x.clone());
                    }
                    Some(Rc::new(match (&**x, &**y) {
                        (T::Inner(p), T::Inner(q)) => T::Inner(std::array::from_fn(|i| go(m, cond, &p[i], &q[i]))),
                        (T::Leaf(p), T::Leaf(q)) => T::Leaf(std::array::from_fn(|i| match (&p[i], &q[i]) {
                            (None, z) | (z, None) => z.clone(),
                            (Some(u), Some(w)) => {
                                if Rc::ptr_eq(u, w) {
                                    Some(u.clone())
                                } else {
                                    Some(Rc::new(merge_alloc(m, cond, u, w)))
                                }
                            }
                        })),
                        _ => unreachable!(),
                    }))
                }
            }
        }
        Mem { root: go(m, cond, &a.root, &b.root) }
    }
}

pub fn merge_cells(m: &mut Mdd, cond: N, a: &[Cell], azero: bool, b: &[Cell], bzero: bool) -> Vec<Cell> {
    let mut out = Vec::with_capacity(a.len().max(b.len()));
    let (mut i, mut j) = (0, 0);
    let dflt = |m: &mut Mdd, z: bool| if z { m.f } else { m.undef };
    while i < a.len() || j < b.len() {
        let x = a.get(i);
        let y = b.get(j);
        match (x, y) {
            (Some(x), Some(y)) if x.off == y.off && x.size == y.size => {
                let v = if x.v == y.v { x.v } else { m.ite(cond, x.v, y.v) };
                out.push(Cell { off: x.off, size: x.size, v });
                i += 1;
                j += 1;
            }
            (Some(x), y) if y.map_or(true, |y| x.off + x.size as u64 <= y.off) => {
                let d = dflt(m, bzero);
                let v = m.ite(cond, x.v, d);
                out.push(Cell { off: x.off, size: x.size, v });
                i += 1;
            }
            (x, Some(y)) if x.map_or(true, |x| y.off + y.size as u64 <= x.off) => {
                let d = dflt(m, azero);
                let v = m.ite(cond, d, y.v);
                out.push(Cell { off: y.off, size: y.size, v });
                j += 1;
            }
            (Some(x), Some(y)) => {
                // overlapping with different boundaries: collect the cluster and go bytewise
                let lo = x.off.min(y.off);
                let mut hi = (x.off + x.size as u64).max(y.off + y.size as u64);
                let (mut i2, mut j2) = (i, j);
                loop {
                    let mut ch = false;
                    while i2 < a.len() && a[i2].off < hi {
                        hi = hi.max(a[i2].off + a[i2].size as u64);
                        i2 += 1;
                        ch = true;
                    }
                    while j2 < b.len() && b[j2].off < hi {
                        hi = hi.max(b[j2].off + b[j2].size as u64);
                        j2 += 1;
                        ch = true;
                    }
                    if !ch {
                        break;
                    }
                }
                // split points
                let mut pts = std::collections::BTreeSet::new();
                for c in a[i..i2].iter().chain(b[j..j2].iter()) {
                    pts.insert(c.off);
                    pts.insert(c.off + c.size as u64);
                }
                let pts: Vec<u64> = pts.into_iter().collect();
                for w in pts.windows(2) {
                    let (o, s) = (w[0], (w[1] - w[0]) as u32);
                    let va = read_cells(m, &a[i..i2], azero, o, s);
                    let vb = read_cells(m, &b[j..j2], bzero, o, s);
                    let v = m.ite(cond, va, vb);
                    if v != m.undef {
                        out.push(Cell { off: o, size: s, v });
                    }
                }
                let _ = lo;
                i = i2;
                j = j2;
            }
            (None, None) | (None, Some(_)) | (Some(_), None) => unreachable!(),
        }
    }
    out
}

fn merge_alloc(m: &mut Mdd, cond: N, a: &Alloc, b: &Alloc) -> Alloc {
    Alloc {
        size: a.size.max(b.size),
        align: a.align.max(b.align),
        zero: a.zero && b.zero,
        cells: if a.zero == b.zero {
            merge_cells(m, cond, &a.cells, a.zero, &b.cells, b.zero)
        } else {
            merge_cells(m, cond, &a.cells, a.zero, &b.cells, b.zero)
        },
    }
}

pub fn mask(size: u32) -> u128 {
    if size >= 16 { u128::MAX } else { (1u128 << (size * 8)) - 1 }
}

fn extract(m: &mut Mdd, v: N, full: u32, lo: u32, len: u32) -> N {
    if lo == 0 && len == full {
        return v;
    }
    let code = 0x1000_0000u64 | ((full as u64) << 16) | ((lo as u64) << 8) | len as u64;
    m.map1_cached(code, v, &mut |m, l| match l {
        Leaf::Int(x) => m.int((x >> (8 * lo)) & mask(len)),
        Leaf::Undef => m.undef,
        Leaf::Range(_, hi) if lo == 0 && hi <= mask(len) => m.leaf(l),
        Leaf::Range(_, hi) if hi <= mask(lo) => m.int(0),
        Leaf::Frag { of, full: g, lo: l0, .. } => m.leaf(Leaf::Frag { of, full: g, lo: l0 + lo, len }),
        Leaf::Top => m.top,
        _ => {
            let of = m.leaf(l);
            m.leaf(Leaf::Frag { of, full, lo, len })
        }
    })
}

/// concatenate little-endian: hi placed above lo (lo has lo_size bytes)
fn concat(m: &mut Mdd, lo: N, lo_size: u32, hi: N) -> N {
    let code = 0x2000_0000u64 | lo_size as u64;
    m.map2_cached(code, lo, hi, &mut |m, a, b| match (a, b) {
        (Leaf::Int(x), Leaf::Int(y)) => m.int(x | (y << (8 * lo_size))),
        (Leaf::Undef, _) | (_, Leaf::Undef) => m.undef,
        (Leaf::Range(..), Leaf::Int(0)) => m.leaf(a),
        (Leaf::Frag { of, full, lo, len }, Leaf::Frag { of: o2, full: f2, lo: l2, len: n2 }) if of == o2 && full == f2 && l2 == lo + len && len == lo_size => {
            if lo == 0 && len + n2 == full {
                of
            } else {
                m.leaf(Leaf::Frag { of, full, lo, len: len + n2 })
            }
        }
        _ => m.top,
    })
}

pub fn read_cells(m: &mut Mdd, cells: &[Cell], zero: bool, off: u64, size: u32) -> N {
    // find first cell with end > off
    let idx = cells.partition_point(|c| c.off + (c.size as u64) <= off);
    if let Some(c) = cells.get(idx) {
        if c.off == off && c.size == size {
            return c.v;
        }
        if c.off <= off && off + size as u64 <= c.off + c.size as u64 {
            return extract(m, c.v, c.size, (off - c.off) as u32, size);
        }
    }
    // assemble
    let end = off + size as u64;
    let mut pos = off;
    let mut acc: Option<(N, u32)> = None;
    let mut k = idx;
    while pos < end {
        let (v, len) = match cells.get(k) {
            Some(c) if c.off <= pos => {
                let ce = c.off + c.size as u64;
                let len = ce.min(end) - pos;
                let v = extract(m, c.v, c.size, (pos - c.off) as u32, len as u32);
                k += 1;
                (v, len as u32)
            }
            other => {
                let nxt = other.map_or(end, |c| c.off.min(end));
                let len = (nxt - pos) as u32;
                (if zero { m.f } else { m.undef }, len)
            }
        };
        acc = Some(match acc {
            None => (v, len),
            Some((a, l)) => (concat(m, a, l, v), l + len),
        });
        pos += len as u64;
    }
    acc.map_or(m.undef, |a| a.0)
}

/// remove coverage of [off, off+size) from cells, splitting partially overlapped ones
pub fn punch(m: &mut Mdd, cells: &mut Vec<Cell>, off: u64, size: u64) -> usize {
    let end = off + size;
    let i = cells.partition_point(|c| c.off + (c.size as u64) <= off);
    let mut j = i;
    while j < cells.len() && cells[j].off < end {
        j += 1;
    }
    if i == j {
        return i;
    }
    let mut repl: Vec<Cell> = vec![];
    let first = cells[i];
    let last = cells[j - 1];
    let mut ins = i;
    if first.off < off {
        let len = (off - first.off) as u32;
        repl.push(Cell { off: first.off, size: len, v: extract(m, first.v, first.size, 0, len) });
        ins = i + 1;
    }
    if last.off + last.size as u64 > end {
        let lo = (end - last.off) as u32;
        let len = last.size - lo;
        repl.push(Cell { off: end, size: len, v: extract(m, last.v, last.size, lo, len) });
    }
    cells.splice(i..j, repl);
    ins
}

impl Alloc {
    pub fn new(size: u64, align: u64) -> Alloc {
        Alloc { size, align, zero: false, cells: vec![] }
    }
    pub fn read(&self, m: &mut Mdd, off: u64, size: u32) -> N {
        read_cells(m, &self.cells, self.zero, off, size)
    }
    pub fn write(&mut self, m: &mut Mdd, off: u64, size: u32, v: N) {
        let idx = self.cells.partition_point(|c| c.off + (c.size as u64) <= off);
        if let Some(c) = self.cells.get_mut(idx) {
            if c.off == off && c.size == size {
                c.v = v;
                return;
            }
        }
        let ins = punch(m, &mut self.cells, off, size as u64);
        self.cells.insert(ins, Cell { off, size, v });
    }
    /// cells of a region, rebased to 0; zero-filled gaps materialised when alloc is zero-initialised
    pub fn read_region(&self, m: &mut Mdd, off: u64, size: u64) -> Vec<Cell> {
        let end = off + size;
        let mut out = vec![];
        let mut i = self.cells.partition_point(|c| c.off + (c.size as u64) <= off);
        let mut pos = off;
        let fill = |m: &mut Mdd, out: &mut Vec<Cell>, mut p: u64, e: u64| {
            while p < e {
                let step = (8 - (p % 8)).min(e - p);
                out.push(Cell { off: p - off, size: step as u32, v: m.f });
                p += step;
            }
        };
        while i < self.cells.len() && self.cells[i].off < end {
            let c = self.cells[i];
            let s = c.off.max(off);
            let e = (c.off + c.size as u64).min(end);
            if self.zero && pos < s {
                fill(m, &mut out, pos, s);
            }
            let v = extract(m, c.v, c.size, (s - c.off) as u32, (e - s) as u32);
            out.push(Cell { off: s - off, size: (e - s) as u32, v });
            pos = e;
            i += 1;
        }
        if self.zero && pos < end {
            fill(m, &mut out, pos, end);
        }
        out
    }
    pub fn write_region(&mut self, m: &mut Mdd, off: u64, size: u64, cells: &[Cell]) {
        if size == 0 {
            return;
        }
        if cells.len() == 1 && cells[0].off == 0 && cells[0].size as u64 == size {
            return self.write(m, off, size as u32, cells[0].v);
        }
        // fast path: same layout
        let idx = self.cells.partition_point(|c| c.off + (c.size as u64) <= off);
        if !cells.is_empty()
            && idx + cells.len() <= self.cells.len()
            && cells.iter().zip(&self.cells[idx..]).all(|(a, b)| a.off + off == b.off && a.size == b.size)
            && self.cells.get(idx + cells.len()).map_or(true, |c| c.off >= off + size)
            && self.cells[idx].off >= off
        {
            for (a, b) in cells.iter().zip(&mut self.cells[idx..]) {
                b.v = a.v;
            }
            return;
        }
        if self.zero {
            // gaps in the source are undefined, not zero
            self.materialise_zero(m);
        }
        let ins = punch(m, &mut self.cells, off, size);
        self.cells.splice(ins..ins, cells.iter().map(|c| Cell { off: c.off + off, size: c.size, v: c.v }));
    }
    fn materialise_zero(&mut self, m: &mut Mdd) {
        let size = self.size;
        assert!(size < 1 << 24, "zeroed allocation too large");
        let cells = self.read_region(m, 0, size);
        self.cells = cells;
        self.zero = false;
    }
}
