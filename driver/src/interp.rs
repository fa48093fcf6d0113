//! Abstract interpreter over monomorphic MIR.
use crate::mdd::{Leaf, Mdd, N};
use crate::mem::{mask, merge_cells, read_cells, Alloc, Cell, Mem};
use rustc_abi::{self as abi, FieldIdx, FieldsShape, Size, TagEncoding, VariantIdx, Variants};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, AllocRange, ConstAllocation, GlobalAlloc};
use rustc_middle::mir::{self, BasicBlock, BinOp, Body, CastKind, ConstValue, Local, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, LayoutOf, TyAndLayout};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::rc::Rc;

/// nodes one merged read may take, before its result is anything
const READ: usize = 60_000;
pub const GLOBAL: u32 = 1 << 30;

#[derive(Clone)]
pub enum GKind<'tcx> {
    Data,
    Fn(Instance<'tcx>),
    VTable(Ty<'tcx>),
    TypeId(Ty<'tcx>),
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub pc: N,
}

pub struct FBody<'tcx> {
    pub body: Body<'tcx>,
    pub layouts: Vec<TyAndLayout<'tcx>>,
    pub offs: Vec<u64>,
    pub frame_size: u64,
    pub ipdom: Vec<Option<BasicBlock>>,
}

pub struct Frame<'tcx> {
    pub b: Rc<FBody<'tcx>>,
    pub inst: Instance<'tcx>,
    pub id: u32,
}

#[derive(Clone, Copy, Debug)]
pub struct Pl<'tcx> {
    pub ptr: N,
    pub meta: Option<N>,
    pub lay: TyAndLayout<'tcx>,
}

#[derive(Clone, Debug)]
pub struct Val<'tcx> {
    pub lay: TyAndLayout<'tcx>,
    pub cells: Vec<Cell>,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: &'static str,
    pub msg: String,
    pub loc: String,
    pub func: String,
    pub path: Vec<String>,
    pub pc: N,
    pub witness: String,
}

#[derive(Clone, Debug)]
pub struct OutRec<'tcx> {
    pub tag: String,
    pub ty: Ty<'tcx>,
    pub mem: Mem,
    pub ptr: N,
    pub meta: Option<N>,
    pub pc: N,
}
impl std::fmt::Debug for Mem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("mem")
    }
}

/// set by the watchdog: 1 out of time, 2 out of memory
pub static STOP: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);

pub struct Interp<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub te: TypingEnv<'tcx>,
    pub cx: LayoutCx<'tcx>,
    pub m: Mdd,
    pub globals: Vec<(GKind<'tcx>, Alloc)>,
    gmap: FxHashMap<AllocId, u32>,
    gfn: FxHashMap<Instance<'tcx>, u32>,
    gvt: FxHashMap<Ty<'tcx>, u32>,
    gty: FxHashMap<Ty<'tcx>, u32>,
    gstatic: FxHashMap<DefId, u32>,
    bodies: FxHashMap<Instance<'tcx>, Option<Rc<FBody<'tcx>>>>,
    consts: FxHashMap<(mir::Const<'tcx>,), Val<'tcx>>,
    lays: FxHashMap<Ty<'tcx>, TyAndLayout<'tcx>>,
    pub next_id: u32,
    pub events: Vec<Event>,
    pub outs: Vec<OutRec<'tcx>>,
    pub stack: Vec<(Instance<'tcx>, Span)>,
    pub steps: u64,
    pub max_steps: u64,
    pub forks: u64,
    pub aborted: Option<String>,
    pub visited: FxHashMap<DefId, u64>,
    pub callsites: FxHashSet<(DefId, Span)>,
    pub hooks: FxHashMap<DefId, Option<crate::hooks::Hook>>,
    /// functions of the harness that stand for functions of the environment, and what was looked up
    pub models: FxHashMap<String, DefId>,
    pub modeled: FxHashMap<DefId, Option<DefId>>,
    pub names: FxHashMap<u32, Vec<String>>, // var -> value names
    pub ext: crate::hooks::Ext<'tcx>,
    pub trace: bool,
    pub checks: FxHashMap<String, u64>,
}

pub type R<T> = Result<T, String>;

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        let te = TypingEnv::fully_monomorphized();
        Interp {
            tcx,
            te,
            cx: LayoutCx::new(tcx, te),
            m: Mdd::new(),
            globals: vec![],
            gmap: Default::default(),
            gfn: Default::default(),
            gvt: Default::default(),
            gty: Default::default(),
            gstatic: Default::default(),
            bodies: Default::default(),
            consts: Default::default(),
            lays: Default::default(),
            next_id: 1,
            events: vec![],
            outs: vec![],
            stack: vec![],
            steps: 0,
            max_steps: 400_000_000,
            forks: 0,
            aborted: None,
            visited: Default::default(),
            callsites: Default::default(),
            hooks: Default::default(),
            models: crate::hooks::models(tcx),
            modeled: Default::default(),
            names: Default::default(),
            ext: Default::default(),
            trace: false,
            checks: Default::default(),
        }
    }

    pub fn layout(&mut self, ty: Ty<'tcx>) -> TyAndLayout<'tcx> {
        if let Some(l) = self.lays.get(&ty) {
            return *l;
        }
        let l = match self.cx.layout_of(ty) {
            Ok(l) => l,
            Err(e) => panic!("layout_of {ty}: {e:?}"),
        };
        self.lays.insert(ty, l);
        l
    }

    pub fn abort<T>(&mut self, msg: impl Into<String>) -> R<T> {
        let msg = msg.into();
        let (f, l, p) = self.where_am_i();
        Err(format!("{msg} at {l} in {f} (via {})", p.join(" <- ")))
    }

    pub fn span_str(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = lo.file.name.prefer_local_unconditionally().to_string();
        format!("{}:{}", name, lo.line)
    }

    pub fn is_user_crate(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate);
        n.as_str() == "barbarosa" || d.krate == rustc_hir::def_id::LOCAL_CRATE
    }

    /// (function, location, call path) of the innermost frame in the analysed crate
    pub fn where_am_i(&self) -> (String, String, Vec<String>) {
        let mut func = String::new();
        let mut loc = String::new();
        let mut path = vec![];
        for (i, s) in self.stack.iter().rev() {
            let d = i.def_id();
            if func.is_empty() && self.is_user_crate(d) {
                func = self.tcx.def_path_str(d);
                loc = self.span_str(*s);
            }
            if self.is_user_crate(d) && path.len() < 12 {
                path.push(format!("{}@{}", self.tcx.def_path_str(d), self.span_str(*s)));
            }
        }
        if let Some((i, s)) = self.stack.last() {
            if func.is_empty() || !self.is_user_crate(i.def_id()) {
                path.insert(0, format!("{}@{}", self.tcx.def_path_str(i.def_id()), self.span_str(*s)));
            }
        }
        (func, loc, path)
    }

    pub fn witness(&self, pc: N) -> String {
        match self.m.sat_one(pc) {
            None => "unsat".into(),
            Some(a) => a
                .iter()
                .map(|(v, i)| {
                    let vn = &self.m.vars[*v as usize].name;
                    let val = self.names.get(v).and_then(|n| n.get(*i as usize)).cloned().unwrap_or_else(|| i.to_string());
                    format!("{vn}={val}")
                })
                .collect::<Vec<_>>()
                .join(", "),
        }
    }

    pub fn event(&mut self, st: &State, kind: &'static str, msg: String) {
        if st.pc == self.m.f {
            return;
        }
        let (func, loc, path) = self.where_am_i();
        for e in self.events.iter_mut() {
            if e.kind == kind && e.msg == msg && e.loc == loc && e.func == func {
                e.pc = self.m.or(e.pc, st.pc);
                return;
            }
        }
        let witness = self.witness(st.pc);
        self.events.push(Event { kind, msg, loc, func, path, pc: st.pc, witness });
    }

    // ---------- globals ----------
    fn new_global(&mut self, k: GKind<'tcx>, a: Alloc) -> u32 {
        self.globals.push((k, a));
        GLOBAL | (self.globals.len() - 1) as u32
    }
    pub fn fn_ptr(&mut self, i: Instance<'tcx>) -> N {
        let id = match self.gfn.get(&i) {
            Some(x) => *x,
            None => {
                let id = self.new_global(GKind::Fn(i), Alloc::new(0, 1));
                self.gfn.insert(i, id);
                id
            }
        };
        self.m.leaf(Leaf::Ptr { alloc: id, off: 0 })
    }
    pub fn vtable_ptr(&mut self, ty: Ty<'tcx>) -> N {
        let ty = self.tcx.erase_and_anonymize_regions(ty);
        let id = match self.gvt.get(&ty) {
            Some(x) => *x,
            None => {
                let id = self.new_global(GKind::VTable(ty), Alloc::new(0, 8));
                self.gvt.insert(ty, id);
                id
            }
        };
        self.m.leaf(Leaf::Ptr { alloc: id, off: 0 })
    }
    fn typeid_ptr(&mut self, ty: Ty<'tcx>) -> u32 {
        let ty = self.tcx.erase_and_anonymize_regions(ty);
        match self.gty.get(&ty) {
            Some(x) => *x,
            None => {
                let id = self.new_global(GKind::TypeId(ty), Alloc::new(0, 8));
                self.gty.insert(ty, id);
                id
            }
        }
    }
    pub fn gkind(&self, id: u32) -> Option<&GKind<'tcx>> {
        if id & GLOBAL != 0 { Some(&self.globals[(id & !GLOBAL) as usize].0) } else { None }
    }
    pub fn global_of(&mut self, aid: AllocId) -> R<u32> {
        if let Some(x) = self.gmap.get(&aid) {
            return Ok(*x);
        }
        let id = match self.tcx.global_alloc(aid) {
            GlobalAlloc::Function { instance } => {
                let n = self.fn_ptr(instance);
                match self.m.as_leaf(n) {
                    Some(Leaf::Ptr { alloc, .. }) => alloc,
                    _ => unreachable!(),
                }
            }
            GlobalAlloc::VTable(ty, _) => {
                let n = self.vtable_ptr(ty);
                match self.m.as_leaf(n) {
                    Some(Leaf::Ptr { alloc, .. }) => alloc,
                    _ => unreachable!(),
                }
            }
            GlobalAlloc::Static(d) => self.static_id(d)?,
            GlobalAlloc::Memory(ca) => {
                let id = self.new_global(GKind::Data, Alloc::new(ca.inner().size().bytes(), ca.inner().align.bytes()));
                self.gmap.insert(aid, id);
                self.fill_global(id, ca)?;
                id
            }
            GlobalAlloc::TypeId { ty } => self.typeid_ptr(ty),
        };
        self.gmap.insert(aid, id);
        Ok(id)
    }
    pub fn static_id(&mut self, d: DefId) -> R<u32> {
        if let Some(x) = self.gstatic.get(&d) {
            return Ok(*x);
        }
        if self.tcx.is_foreign_item(d) {
            let id = self.new_global(GKind::Data, Alloc { size: 8, align: 8, zero: true, cells: vec![] });
            self.gstatic.insert(d, id);
            return Ok(id);
        }
        let ca = self.tcx.eval_static_initializer(d).map_err(|e| format!("static init {e:?}"))?;
        let id = self.new_global(GKind::Data, Alloc::new(ca.inner().size().bytes(), ca.inner().align.bytes()));
        self.gstatic.insert(d, id);
        self.fill_global(id, ca)?;
        Ok(id)
    }
    fn fill_global(&mut self, id: u32, ca: ConstAllocation<'tcx>) -> R<()> {
        let a = ca.inner();
        let mut cells = vec![];
        let size = a.size();
        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
        let ptrs: Vec<(u64, AllocId)> = a.provenance().ptrs().iter().map(|(o, p)| (o.bytes(), p.alloc_id())).collect();
        let mut chunks = vec![];
        if a.len() > 0 {
            for c in a.init_mask().range_as_init_chunks(AllocRange { start: Size::ZERO, size }) {
                if c.is_init() {
                    let r = c.range();
                    chunks.push((r.start.bytes(), r.end.bytes()));
                }
            }
        }
        let mut pi = 0;
        for (s, e) in chunks {
            let mut p = s;
            while p < e {
                while pi < ptrs.len() && ptrs[pi].0 < p {
                    pi += 1;
                }
                if pi < ptrs.len() && ptrs[pi].0 == p {
                    let mut v = [0u8; 8];
                    v.copy_from_slice(&bytes[p as usize..p as usize + 8]);
                    let off = u64::from_le_bytes(v) as i64;
                    let t = self.global_of(ptrs[pi].1)?;
                    let n = self.m.leaf(Leaf::Ptr { alloc: t, off });
                    cells.push(Cell { off: p, size: 8, v: n });
                    p += 8;
                    continue;
                }
                let mut step = (8 - p % 8).min(e - p);
                if pi < ptrs.len() && ptrs[pi].0 < p + step {
                    step = ptrs[pi].0 - p;
                }
                let mut v = 0u128;
                for i in 0..step {
                    v |= (bytes[(p + i) as usize] as u128) << (8 * i);
                }
                let n = self.m.int(v);
                cells.push(Cell { off: p, size: step as u32, v: n });
                p += step;
            }
        }
        self.globals[(id & !GLOBAL) as usize].1.cells = cells;
        Ok(())
    }

    pub fn new_alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> u32 {
        let id = self.next_id;
        self.next_id += 1;
        assert!(id < GLOBAL);
        let mut a = Alloc::new(size, align);
        a.zero = zero;
        st.mem.set(id, Some(a));
        id
    }
    pub fn ptr(&mut self, alloc: u32, off: i64) -> N {
        self.m.leaf(Leaf::Ptr { alloc, off })
    }

    // ---------- memory ----------
    fn alloc_ref<'a>(&'a self, st: &'a State, id: u32) -> Option<&'a Alloc> {
        if let Some(a) = st.mem.get(id) {
            return Some(a);
        }
        if id & GLOBAL != 0 {
            return Some(&self.globals[(id & !GLOBAL) as usize].1);
        }
        None
    }
    fn check_ptr(&mut self, st: &State, l: Leaf, size: u64, cond: N) -> R<Option<(u32, u64)>> {
        match l {
            Leaf::Ptr { alloc, off } => {
                let sz = match self.alloc_ref(st, alloc) {
                    Some(a) => a.size,
                    None => {
                        return self.ub(st, cond, "use of a dangling pointer").map(|_| None);
                    }
                };
                if off < 0 || off as u64 + size > sz {
                    return self.ub(st, cond, &format!("out-of-bounds access (offset {off}, {size} bytes, object of {sz})")).map(|_| None);
                }
                Ok(Some((alloc, off as u64)))
            }
            Leaf::Undef => self.ub(st, cond, "use of an uninitialised pointer").map(|_| None),
            Leaf::Int(a) => self.ub(st, cond, &format!("access through integer address {a}")).map(|_| None),
            l => self.abort(format!("access through unknown pointer {l:?}")),
        }
    }
    fn ub(&mut self, st: &State, cond: N, msg: &str) -> R<()> {
        let pc = self.m.and(st.pc, cond);
        let st2 = State { mem: Mem::default(), pc };
        self.event(&st2, "ub", msg.to_string());
        Ok(())
    }
    fn simp_ptr(&mut self, st: &State, p: N) -> N {
        if self.m.as_leaf(p).is_some() { p } else { self.m.restrict(p, st.pc) }
    }
    pub fn read(&mut self, st: &State, p: N, size: u32) -> R<N> {
        if size == 0 {
            return Ok(self.m.undef);
        }
        let p = self.simp_ptr(st, p);
        if let Some(l) = self.m.as_leaf(p) {
            let t = self.m.t;
            return Ok(match self.check_ptr(st, l, size as u64, t)? {
                None => self.m.undef,
                Some((a, o)) => {
                    let al = if let Some(a) = st.mem.get(a) { a } else { &self.globals[(a & !GLOBAL) as usize].1 };
                    al.read(&mut self.m, o, size)
                }
            });
        }
        let ls = self.m.leaves(p);
        let mut acc = None;
        for &l in ls.iter() {
            let c = self.m.is_leaf_eq(p, l);
            let lf = self.m.as_leaf(l).unwrap();
            let Some((a, o)) = self.check_ptr(st, lf, size as u64, c)? else { continue };
            let al = if let Some(a) = st.mem.get(a) { a } else { &self.globals[(a & !GLOBAL) as usize].1 };
            let v = al.read(&mut self.m, o, size);
            acc = Some(match acc {
                None => v,
                Some(x) => match self.m.limited(READ, |m| m.ite(c, v, x)) {
                    Some(n) => n,
                    None => return Ok(self.m.top),
                },
            });
        }
        Ok(acc.unwrap_or(self.m.undef))
    }
    pub fn read_region(&mut self, st: &State, p: N, size: u64) -> R<Vec<Cell>> {
        if size == 0 {
            return Ok(vec![]);
        }
        let p = self.simp_ptr(st, p);
        let ls = if self.m.as_leaf(p).is_some() { Rc::new(vec![p]) } else { self.m.leaves(p) };
        let mut acc: Option<Vec<Cell>> = None;
        for &l in ls.iter() {
            let c = self.m.is_leaf_eq(p, l);
            let lf = self.m.as_leaf(l).unwrap();
            let Some((a, o)) = self.check_ptr(st, lf, size, c)? else { continue };
            let al = if let Some(a) = st.mem.get(a) { a } else { &self.globals[(a & !GLOBAL) as usize].1 };
            let v = al.read_region(&mut self.m, o, size);
            acc = Some(match acc {
                None => v,
                Some(x) => match self.m.limited(READ, |m| merge_cells(m, c, &v, false, &x, false)) {
                    Some(cells) => cells,
                    // it may not matter: a value that is replaced is often not looked at
                    None => return Ok(vec![Cell { off: 0, size: size as u32, v: self.m.top }]),
                },
            });
        }
        Ok(acc.unwrap_or_default())
    }
    fn alloc_mut<'a>(globals: &[(GKind<'tcx>, Alloc)], st: &'a mut State, id: u32) -> &'a mut Alloc {
        if id & GLOBAL != 0 && st.mem.get(id).is_none() {
            st.mem.set(id, Some(globals[(id & !GLOBAL) as usize].1.clone()));
        }
        st.mem.get_mut(id).unwrap()
    }
    pub fn write(&mut self, st: &mut State, p: N, size: u32, v: N) -> R<()> {
        if size == 0 {
            return Ok(());
        }
        let p = self.simp_ptr(st, p);
        if let Some(l) = self.m.as_leaf(p) {
            let t = self.m.t;
            if let Some((a, o)) = self.check_ptr(st, l, size as u64, t)? {
                Self::alloc_mut(&self.globals, st, a).write(&mut self.m, o, size, v);
            }
            return Ok(());
        }
        let ls = self.m.leaves(p);
        for &l in ls.iter() {
            let c = self.m.is_leaf_eq(p, l);
            let lf = self.m.as_leaf(l).unwrap();
            let Some((a, o)) = self.check_ptr(st, lf, size as u64, c)? else { continue };
            let al = Self::alloc_mut(&self.globals, st, a);
            let old = al.read(&mut self.m, o, size);
            let nv = self.m.ite(c, v, old);
            al.write(&mut self.m, o, size, nv);
        }
        Ok(())
    }
    pub fn write_region(&mut self, st: &mut State, p: N, size: u64, cells: &[Cell]) -> R<()> {
        if size == 0 {
            return Ok(());
        }
        let p = self.simp_ptr(st, p);
        if let Some(l) = self.m.as_leaf(p) {
            let t = self.m.t;
            if let Some((a, o)) = self.check_ptr(st, l, size, t)? {
                Self::alloc_mut(&self.globals, st, a).write_region(&mut self.m, o, size, cells);
            }
            return Ok(());
        }
        let ls = self.m.leaves(p);
        for &l in ls.iter() {
            let c = self.m.is_leaf_eq(p, l);
            let lf = self.m.as_leaf(l).unwrap();
            let Some((a, o)) = self.check_ptr(st, lf, size, c)? else { continue };
            let al = Self::alloc_mut(&self.globals, st, a);
            let old = al.read_region(&mut self.m, o, size);
            let nv = merge_cells(&mut self.m, c, cells, false, &old, false);
            al.write_region(&mut self.m, o, size, &nv);
        }
        Ok(())
    }
    pub fn ptr_add(&mut self, p: N, d: i64) -> N {
        if d == 0 {
            return p;
        }
        if let Some(Leaf::Ptr { alloc, off }) = self.m.as_leaf(p) {
            return self.m.leaf(Leaf::Ptr { alloc, off: off + d });
        }
        let dn = self.m.int(d as u64 as u128);
        self.m.map2_cached(0x30, p, dn, &mut |m, a, b| {
            let Leaf::Int(b) = b else { unreachable!() };
            match a {
                Leaf::Ptr { alloc, off } => m.leaf(Leaf::Ptr { alloc, off: off + b as u64 as i64 }),
                Leaf::Int(x) => m.int(x.wrapping_add(b) & mask(8)),
                Leaf::Undef => m.undef,
                _ => m.top,
            }
        })
    }
    pub fn ptr_add_scaled(&mut self, p: N, idx: N, scale: u64) -> N {
        if let (Some(Leaf::Ptr { alloc, off }), Some(Leaf::Int(i))) = (self.m.as_leaf(p), self.m.as_leaf(idx)) {
            let d = (i as u64 as i64).wrapping_mul(scale as i64);
            return self.m.leaf(Leaf::Ptr { alloc, off: off.wrapping_add(d) });
        }
        self.m.map2_cached(0x3100_0000_0000 | scale, p, idx, &mut |m, a, b| {
            let Leaf::Int(b) = b else { return if b == Leaf::Undef { m.undef } else { m.top } };
            let d = (b as u64 as i64).wrapping_mul(scale as i64);
            match a {
                Leaf::Ptr { alloc, off } => m.leaf(Leaf::Ptr { alloc, off: off.wrapping_add(d) }),
                Leaf::Int(x) => m.int(x.wrapping_add(d as u64 as u128) & mask(8)),
                Leaf::Undef => m.undef,
                _ => m.top,
            }
        })
    }

    // ---------- values ----------
    pub fn scalar(&mut self, v: &Val<'tcx>) -> N {
        if v.cells.len() == 1 && v.cells[0].off == 0 {
            return v.cells[0].v;
        }
        let size = v.lay.size.bytes() as u32;
        read_cells(&mut self.m, &v.cells, false, 0, size)
    }
    pub fn part(&mut self, v: &Val<'tcx>, off: u64, size: u32) -> N {
        read_cells(&mut self.m, &v.cells, false, off, size)
    }
    pub fn sval(&self, lay: TyAndLayout<'tcx>, n: N) -> Val<'tcx> {
        let size = lay.size.bytes() as u32;
        if size == 0 {
            return Val { lay, cells: vec![] };
        }
        Val { lay, cells: vec![Cell { off: 0, size, v: n }] }
    }
    pub fn pairval(&self, lay: TyAndLayout<'tcx>, a: N, b: N) -> Val<'tcx> {
        Val { lay, cells: vec![Cell { off: 0, size: 8, v: a }, Cell { off: 8, size: 8, v: b }] }
    }
    pub fn load(&mut self, st: &State, p: &Pl<'tcx>) -> R<Val<'tcx>> {
        let size = p.lay.size.bytes();
        if let abi::BackendRepr::Scalar(_) = p.lay.backend_repr {
            let v = self.read(st, p.ptr, size as u32)?;
            return Ok(self.sval(p.lay, v));
        }
        let cells = self.read_region(st, p.ptr, size)?;
        Ok(Val { lay: p.lay, cells })
    }
    pub fn store(&mut self, st: &mut State, p: &Pl<'tcx>, v: &Val<'tcx>) -> R<()> {
        let size = p.lay.size.bytes();
        if v.cells.len() == 1 && v.cells[0].off == 0 && v.cells[0].size as u64 == size {
            return self.write(st, p.ptr, size as u32, v.cells[0].v);
        }
        self.write_region(st, p.ptr, size, &v.cells)
    }
    pub fn store_scalar(&mut self, st: &mut State, p: &Pl<'tcx>, n: N) -> R<()> {
        self.write(st, p.ptr, p.lay.size.bytes() as u32, n)
    }

    pub fn local_pl(&mut self, fr: &Frame<'tcx>, l: Local) -> Pl<'tcx> {
        let ptr = self.m.leaf(Leaf::Ptr { alloc: fr.id, off: fr.b.offs[l.as_usize()] as i64 });
        Pl { ptr, meta: None, lay: fr.b.layouts[l.as_usize()] }
    }

    pub fn field(&mut self, p: &Pl<'tcx>, i: usize) -> R<Pl<'tcx>> {
        let fl = p.lay.field(&self.cx, i);
        let off = p.lay.fields.offset(i).bytes();
        if fl.is_unsized() {
            let mut o = off;
            if let Some(meta) = p.meta {
                let tail = self.tcx.struct_tail_for_codegen(fl.ty, self.te);
                if let ty::Dynamic(..) = tail.kind() {
                    match self.m.as_leaf(meta) {
                        Some(Leaf::Ptr { alloc, .. }) => {
                            if let Some(GKind::VTable(t)) = self.gkind(alloc).cloned() {
                                let al = self.layout(t).align.abi.bytes();
                                o = (o + al - 1) / al * al;
                            }
                        }
                        _ => {
                            // all candidate types must agree
                            let ls = self.m.leaves(meta);
                            let mut offs = FxHashSet::default();
                            for &l in ls.iter() {
                                if let Some(Leaf::Ptr { alloc, .. }) = self.m.as_leaf(l) {
                                    if let Some(GKind::VTable(t)) = self.gkind(alloc).cloned() {
                                        let al = self.layout(t).align.abi.bytes();
                                        offs.insert((o + al - 1) / al * al);
                                    }
                                }
                            }
                            if offs.len() == 1 {
                                o = offs.into_iter().next().unwrap();
                            } else {
                                return self.abort("dyn field with symbolic alignment");
                            }
                        }
                    }
                }
            }
            return Ok(Pl { ptr: self.ptr_add(p.ptr, o as i64), meta: p.meta, lay: fl });
        }
        Ok(Pl { ptr: self.ptr_add(p.ptr, off as i64), meta: None, lay: fl })
    }

    pub fn deref(&mut self, st: &State, p: &Pl<'tcx>) -> R<Pl<'tcx>> {
        let Some(t) = p.lay.ty.builtin_deref(true) else {
            return self.abort(format!("deref of {}", p.lay.ty));
        };
        let tl = self.layout(t);
        let ptr = self.read(st, p.ptr, 8)?;
        let meta = if p.lay.size.bytes() == 16 {
            let q = self.ptr_add(p.ptr, 8);
            Some(self.read(st, q, 8)?)
        } else {
            None
        };
        Ok(Pl { ptr, meta, lay: tl })
    }
    pub fn val_deref(&mut self, v: &Val<'tcx>) -> R<Pl<'tcx>> {
        let Some(t) = v.lay.ty.builtin_deref(true) else {
            return self.abort(format!("deref of {}", v.lay.ty));
        };
        let tl = self.layout(t);
        let ptr = self.part(v, 0, 8);
        let meta = if v.lay.size.bytes() == 16 { Some(self.part(v, 8, 8)) } else { None };
        Ok(Pl { ptr, meta, lay: tl })
    }

    pub fn place(&mut self, st: &State, fr: &Frame<'tcx>, pl: &Place<'tcx>) -> R<Pl<'tcx>> {
        let mut p = self.local_pl(fr, pl.local);
        for e in pl.projection.iter() {
            p = match e {
                ProjectionElem::Deref => self.deref(st, &p)?,
                ProjectionElem::Field(f, _) => self.field(&p, f.as_usize())?,
                ProjectionElem::Downcast(_, v) => Pl { lay: p.lay.for_variant(&self.cx, v), ..p },
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => return self.abort("opaque cast"),
                ProjectionElem::Index(l) => {
                    let lp = self.local_pl(fr, l);
                    let idx = self.read(st, lp.ptr, 8)?;
                    let (el, stride) = self.elem(&p)?;
                    let ptr = self.ptr_add_scaled(p.ptr, idx, stride);
                    Pl { ptr, meta: None, lay: el }
                }
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    let (el, stride) = self.elem(&p)?;
                    let ptr = if from_end {
                        let n = self.seq_len(&p)?;
                        let q = self.ptr_add_scaled(p.ptr, n, stride);
                        self.ptr_add(q, -((offset * stride) as i64))
                    } else {
                        self.ptr_add(p.ptr, (offset * stride) as i64)
                    };
                    Pl { ptr, meta: None, lay: el }
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let (el, stride) = self.elem(&p)?;
                    let ptr = self.ptr_add(p.ptr, (from * stride) as i64);
                    match p.lay.ty.kind() {
                        ty::Array(_, n) => {
                            let n = n.try_to_target_usize(self.tcx).unwrap();
                            let len = if from_end { n - from - to } else { to - from };
                            let t = Ty::new_array(self.tcx, el.ty, len);
                            Pl { ptr, meta: None, lay: self.layout(t) }
                        }
                        _ => {
                            let n = self.seq_len(&p)?;
                            let sub = self.m.int((from + to) as u128);
                            let len = if from_end { self.int_bin(BinOp::Sub, 8, false, n, sub) } else { self.m.int((to - from) as u128) };
                            Pl { ptr, meta: Some(len), lay: p.lay }
                        }
                    }
                }
                other => return self.abort(format!("projection {other:?}")),
            };
        }
        Ok(p)
    }
    pub fn elem(&mut self, p: &Pl<'tcx>) -> R<(TyAndLayout<'tcx>, u64)> {
        let t = match p.lay.ty.kind() {
            ty::Array(t, _) | ty::Slice(t) => *t,
            ty::Str => self.tcx.types.u8,
            _ => return self.abort(format!("index into {}", p.lay.ty)),
        };
        let l = self.layout(t);
        Ok((l, l.size.bytes()))
    }
    pub fn seq_len(&mut self, p: &Pl<'tcx>) -> R<N> {
        match p.lay.ty.kind() {
            ty::Array(_, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap();
                Ok(self.m.int(n as u128))
            }
            _ => match p.meta {
                Some(m) => Ok(m),
                None => self.abort("len of thin"),
            },
        }
    }

    pub fn konst(&mut self, c: &mir::Const<'tcx>, span: Span) -> R<Val<'tcx>> {
        if let Some(v) = self.consts.get(&(*c,)) {
            return Ok(v.clone());
        }
        let lay = self.layout(c.ty());
        let cv = c.eval(self.tcx, self.te, span).map_err(|e| format!("const eval {e:?}"))?;
        let v = self.const_val(cv, lay)?;
        self.consts.insert((*c,), v.clone());
        Ok(v)
    }
    fn const_val(&mut self, cv: ConstValue, lay: TyAndLayout<'tcx>) -> R<Val<'tcx>> {
        use rustc_middle::mir::interpret::Scalar;
        Ok(match cv {
            ConstValue::ZeroSized => Val { lay, cells: vec![] },
            ConstValue::Scalar(Scalar::Int(i)) => {
                let n = self.m.int(i.to_bits(i.size()));
                self.sval(lay, n)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = self.global_of(prov.alloc_id())?;
                let n = self.m.leaf(Leaf::Ptr { alloc: id, off: off.bytes() as i64 });
                self.sval(lay, n)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let id = self.global_of(alloc_id)?;
                let a = self.m.leaf(Leaf::Ptr { alloc: id, off: 0 });
                let b = self.m.int(meta as u128);
                self.pairval(lay, a, b)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let id = self.global_of(alloc_id)?;
                let al = self.globals[(id & !GLOBAL) as usize].1.clone();
                let cells = al.read_region(&mut self.m, offset.bytes(), lay.size.bytes());
                Val { lay, cells }
            }
        })
    }

    pub fn operand(&mut self, st: &State, fr: &Frame<'tcx>, o: &Operand<'tcx>) -> R<Val<'tcx>> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pl = self.place(st, fr, p)?;
                self.load(st, &pl)
            }
            Operand::Constant(c) => self.konst(&c.const_, c.span),
            Operand::RuntimeChecks(k) => {
                let lay = self.layout(self.tcx.types.bool);
                let n = match k {
                    mir::RuntimeChecks::OverflowChecks => self.m.t,
                    _ => self.m.f,
                };
                Ok(self.sval(lay, n))
            }
        }
    }

    fn signed(ty: Ty<'tcx>) -> bool {
        matches!(ty.kind(), ty::Int(_))
    }

    pub fn int_bin(&mut self, op: BinOp, size: u32, signed: bool, a: N, b: N) -> N {
        let code = 0x4000_0000u64 | ((op as u64) << 8) | ((size as u64) << 1) | signed as u64;
        self.m.map2_cached(code, a, b, &mut |m, x, y| {
            let l = crate::ops::int_bin(op, size, signed, x, y);
            m.leaf(l)
        })
    }

    fn binop(&mut self, op: BinOp, a: &Val<'tcx>, b: &Val<'tcx>, dest: TyAndLayout<'tcx>) -> R<Val<'tcx>> {
        let ty = a.lay.ty;
        let size = a.lay.size.bytes() as u32;
        if a.lay.size.bytes() == 16 && (ty.is_any_ptr()) {
            // wide pointer comparison
            let (p, q, r, s) = (self.part(a, 0, 8), self.part(a, 8, 8), self.part(b, 0, 8), self.part(b, 8, 8));
            let e1 = self.int_bin(BinOp::Eq, 8, false, p, r);
            let e2 = self.int_bin(BinOp::Eq, 8, false, q, s);
            let e = self.m.and(e1, e2);
            let n = match op {
                BinOp::Eq => e,
                BinOp::Ne => self.m.not(e),
                _ => return self.abort("wide pointer ordering"),
            };
            return Ok(self.sval(dest, n));
        }
        let (x, y) = (self.scalar(a), self.scalar(b));
        if let ty::Float(ft) = ty.kind() {
            let bits = ft.bit_width() as u32;
            let code = 0x5000_0000u64 | ((op as u64) << 8) | bits as u64;
            let n = self.m.map2_cached(code, x, y, &mut |m, x, y| {
                let l = crate::ops::float_bin(op, bits, x, y);
                m.leaf(l)
            });
            return Ok(self.sval(dest, n));
        }
        let signed = Self::signed(ty);
        match op {
            BinOp::Offset => {
                let t = ty.builtin_deref(true).unwrap();
                let sc = self.layout(t).size.bytes();
                // sign of index
                let n = self.ptr_add_scaled(x, y, sc);
                Ok(self.sval(dest, n))
            }
            BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow => {
                let base = match op {
                    BinOp::AddWithOverflow => BinOp::Add,
                    BinOp::SubWithOverflow => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let v = self.int_bin(base, size, signed, x, y);
                let code = 0x6000_0000u64 | ((base as u64) << 8) | ((size as u64) << 1) | signed as u64;
                let o = self.m.map2_cached(code, x, y, &mut |m, x, y| {
                    let l = crate::ops::overflows(base, size, signed, x, y);
                    m.leaf(l)
                });
                let (o0, o1) = (dest.fields.offset(0).bytes(), dest.fields.offset(1).bytes());
                let mut cells = vec![Cell { off: o0, size, v }, Cell { off: o1, size: 1, v: o }];
                cells.sort_by_key(|c| c.off);
                Ok(Val { lay: dest, cells })
            }
            BinOp::Shl | BinOp::Shr | BinOp::ShlUnchecked | BinOp::ShrUnchecked => {
                let rs = b.lay.size.bytes() as u32;
                let _ = rs;
                let n = self.int_bin(op, size, signed, x, y);
                Ok(self.sval(dest, n))
            }
            _ => {
                let n = self.int_bin(op, size, signed, x, y);
                Ok(self.sval(dest, n))
            }
        }
    }

    /// discriminant as index of variant (leaf Int(variant index))
    pub fn variant_index(&mut self, st: &State, p: &Pl<'tcx>) -> R<N> {
        match &p.lay.variants {
            Variants::Empty => Ok(self.m.undef),
            Variants::Single { index } => Ok(self.m.int(index.as_u32() as u128)),
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let tsize = tag.size(&self.cx).bytes() as u32;
                let off = p.lay.fields.offset(tag_field.as_usize()).bytes();
                let q = self.ptr_add(p.ptr, off as i64);
                let t = self.read(st, q, tsize)?;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let ty::Adt(adt, _) = p.lay.ty.kind() else {
                            return self.abort("discriminant of coroutine");
                        };
                        let ds: Vec<(u128, u32)> = adt.discriminants(self.tcx).map(|(v, d)| (d.val & mask(tsize), v.as_u32())).collect();
                        Ok(self.m.map1(t, &mut |m, l| match l {
                            Leaf::Int(x) => match ds.iter().find(|d| d.0 == x) {
                                Some(d) => m.int(d.1 as u128),
                                None => m.undef,
                            },
                            Leaf::Undef => m.undef,
                            _ => m.top,
                        }))
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let (u, s, e) = (untagged_variant.as_u32(), niche_variants.start.as_u32(), niche_variants.last.as_u32());
                        let ns = *niche_start;
                        Ok(self.m.map1(t, &mut |m, l| match l {
                            Leaf::Int(x) => {
                                let rel = x.wrapping_sub(ns) & mask(tsize);
                                if rel <= (e - s) as u128 { m.int(s as u128 + rel) } else { m.int(u as u128) }
                            }
                            Leaf::Ptr { .. } => m.int(u as u128),
                            Leaf::Undef => m.undef,
                            _ => m.top,
                        }))
                    }
                }
            }
        }
    }
    fn discr_of_variant(&self, ty: Ty<'tcx>, v: u32) -> u128 {
        match ty.discriminant_for_variant(self.tcx, VariantIdx::from_u32(v)) {
            Some(d) => d.val,
            None => v as u128,
        }
    }
    pub fn discriminant(&mut self, st: &State, p: &Pl<'tcx>) -> R<N> {
        let ty = p.lay.ty;
        let dty = ty.discriminant_ty(self.tcx);
        let dsize = self.layout(dty).size.bytes() as u32;
        if !ty.is_enum() && !matches!(ty.kind(), ty::Coroutine(..)) {
            return Ok(self.m.int(0));
        }
        let vi = self.variant_index(st, p)?;
        let n = match ty.kind() {
            ty::Adt(a, _) => a.variants().len() as u32,
            _ => 0,
        };
        let tbl: Vec<u128> = (0..n).map(|v| self.discr_of_variant(ty, v) & mask(dsize)).collect();
        Ok(self.m.map1(vi, &mut |m, l| match l {
            Leaf::Int(x) => m.int(tbl[x as usize]),
            Leaf::Undef => m.undef,
            _ => m.top,
        }))
    }
    pub fn set_variant(&mut self, st: &mut State, p: &Pl<'tcx>, v: VariantIdx) -> R<()> {
        match &p.lay.variants {
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let tsize = tag.size(&self.cx).bytes() as u32;
                let off = p.lay.fields.offset(tag_field.as_usize()).bytes();
                let q = self.ptr_add(p.ptr, off as i64);
                let val = match tag_encoding {
                    TagEncoding::Direct => self.discr_of_variant(p.lay.ty, v.as_u32()) & mask(tsize),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if v == *untagged_variant {
                            return Ok(());
                        }
                        niche_start.wrapping_add((v.as_u32() - niche_variants.start.as_u32()) as u128) & mask(tsize)
                    }
                };
                let n = self.m.int(val);
                self.write(st, q, tsize, n)
            }
            _ => Ok(()),
        }
    }

    fn int_cast(&mut self, n: N, ssize: u32, signed: bool, dsize: u32) -> N {
        let code = 0x7000_0000u64 | ((ssize as u64) << 16) | ((signed as u64) << 8) | dsize as u64;
        self.m.map1_cached(code, n, &mut |m, l| {
            let l = crate::ops::int_cast(ssize, signed, dsize, l);
            m.leaf(l)
        })
    }

    fn cast(&mut self, st: &mut State, k: CastKind, v: &Val<'tcx>, to: TyAndLayout<'tcx>) -> R<Val<'tcx>> {
        match k {
            CastKind::IntToInt => {
                let n = self.scalar(v);
                let (ss, ds) = (v.lay.size.bytes() as u32, to.size.bytes() as u32);
                // enum-to-int casts go through Discriminant in MIR; chars/bools are unsigned
                let n = self.int_cast(n, ss, Self::signed(v.lay.ty), ds);
                Ok(self.sval(to, n))
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::PointerExposeProvenance | CastKind::PointerWithExposedProvenance => {
                if v.lay.size == to.size {
                    return Ok(Val { lay: to, cells: v.cells.clone() });
                }
                let n = self.part(v, 0, 8);
                Ok(self.sval(to, n))
            }
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => Ok(Val { lay: to, cells: v.cells.clone() }),
            CastKind::IntToFloat => {
                let n = self.scalar(v);
                let (ss, sg) = (v.lay.size.bytes() as u32, Self::signed(v.lay.ty));
                let bits = to.size.bits() as u32;
                let n = self.m.map1(n, &mut |m, l| {
                    let l = crate::ops::int_to_float(ss, sg, bits, l);
                    m.leaf(l)
                });
                Ok(self.sval(to, n))
            }
            CastKind::FloatToInt => {
                let n = self.scalar(v);
                let sb = v.lay.size.bits() as u32;
                let (ds, sg) = (to.size.bytes() as u32, Self::signed(to.ty));
                let n = self.m.map1(n, &mut |m, l| {
                    let l = crate::ops::float_to_int(sb, ds, sg, l);
                    m.leaf(l)
                });
                Ok(self.sval(to, n))
            }
            CastKind::FloatToFloat => {
                let n = self.scalar(v);
                let (sb, db) = (v.lay.size.bits() as u32, to.size.bits() as u32);
                let n = self.m.map1(n, &mut |m, l| {
                    let l = crate::ops::float_to_float(sb, db, l);
                    m.leaf(l)
                });
                Ok(self.sval(to, n))
            }
            CastKind::PointerCoercion(pc, _) => match pc {
                PointerCoercion::ReifyFnPointer(_) => {
                    let ty::FnDef(d, args) = *v.lay.ty.kind() else { return self.abort("reify") };
                    let args = args.no_bound_vars().unwrap_or_else(|| panic!("bound fn args"));
                    let Some(i) = Instance::resolve_for_fn_ptr(self.tcx, self.te, d, args) else { return self.abort("reify resolve") };
                    let n = self.fn_ptr(i);
                    Ok(self.sval(to, n))
                }
                PointerCoercion::ClosureFnPointer(_) => {
                    let ty::Closure(d, args) = *v.lay.ty.kind() else { return self.abort("closure fn ptr") };
                    let i = Instance::resolve_closure(self.tcx, d, args, ty::ClosureKind::FnOnce);
                    let n = self.fn_ptr(i);
                    Ok(self.sval(to, n))
                }
                PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer | PointerCoercion::ArrayToPointer => {
                    Ok(Val { lay: to, cells: v.cells.clone() })
                }
                PointerCoercion::Unsize => {
                    // go through memory
                    let id = self.new_alloc(st, to.size.bytes().max(1), 8, false);
                    let ptr = self.ptr(id, 0);
                    let dst = Pl { ptr, meta: None, lay: to };
                    self.unsize(st, v, &dst)?;
                    let r = self.load(st, &dst);
                    st.mem.set(id, None);
                    r
                }
            },
        }
    }
    fn unsize(&mut self, st: &mut State, v: &Val<'tcx>, dst: &Pl<'tcx>) -> R<()> {
        let (sty, dty) = (v.lay.ty, dst.lay.ty);
        match (sty.builtin_deref(true), dty.builtin_deref(true)) {
            (Some(a), Some(b)) => {
                let (ta, tb) = self.tcx.struct_lockstep_tails_for_codegen(a, b, self.te);
                let p = self.part(v, 0, 8);
                let meta = match (ta.kind(), tb.kind()) {
                    (ty::Array(_, n), ty::Slice(_)) => self.m.int(n.try_to_target_usize(self.tcx).unwrap() as u128),
                    (ty::Dynamic(..), ty::Dynamic(..)) => self.part(v, 8, 8),
                    (_, ty::Dynamic(..)) => self.vtable_ptr(ta),
                    _ => return self.abort(format!("unsize {ta} -> {tb}")),
                };
                self.write(st, dst.ptr, 8, p)?;
                let q = self.ptr_add(dst.ptr, 8);
                self.write(st, q, 8, meta)
            }
            _ => {
                let n = dst.lay.fields.count();
                for i in 0..n {
                    let df = self.field(dst, i)?;
                    let sfl = v.lay.field(&self.cx, i);
                    let off = v.lay.fields.offset(i).bytes();
                    if df.lay.size.bytes() == 0 {
                        continue;
                    }
                    let cells = sub_cells(&mut self.m, &v.cells, off, sfl.size.bytes());
                    let fv = Val { lay: sfl, cells };
                    if sfl.ty == df.lay.ty {
                        let fv = Val { lay: df.lay, cells: fv.cells };
                        self.store(st, &df, &fv)?;
                    } else {
                        self.unsize(st, &fv, &df)?;
                    }
                }
                Ok(())
            }
        }
    }

    fn rvalue_into(&mut self, st: &mut State, fr: &Frame<'tcx>, rv: &Rvalue<'tcx>, dst: &Pl<'tcx>) -> R<()> {
        match rv {
            Rvalue::Use(o, _) => {
                let v = self.operand(st, fr, o)?;
                self.store(st, dst, &v)
            }
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => {
                let pl = self.place(st, fr, p)?;
                let v = self.load(st, &pl)?;
                self.store(st, dst, &v)
            }
            Rvalue::Repeat(o, _) => {
                let v = self.operand(st, fr, o)?;
                let ty::Array(_, n) = dst.lay.ty.kind() else { return self.abort("repeat") };
                let n = n.try_to_target_usize(self.tcx).unwrap();
                let es = v.lay.size.bytes();
                if es == 0 {
                    return Ok(());
                }
                if n * es > 1 << 16 {
                    // large homogeneous array: only zero is supported
                    let s = self.scalar(&v);
                    if s == self.m.f {
                        if let Some(Leaf::Ptr { alloc, off: _ }) = self.m.as_leaf(dst.ptr) {
                            let _ = alloc;
                        }
                    }
                    if n * es > 1 << 22 {
                        return self.abort("huge array repeat");
                    }
                }
                let mut cells = Vec::with_capacity(n as usize * v.cells.len());
                for i in 0..n {
                    for c in &v.cells {
                        cells.push(Cell { off: c.off + i * es, ..*c });
                    }
                }
                self.write_region(st, dst.ptr, n * es, &cells)
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                let pl = self.place(st, fr, p)?;
                self.write(st, dst.ptr, 8, pl.ptr)?;
                if dst.lay.size.bytes() == 16 {
                    let q = self.ptr_add(dst.ptr, 8);
                    let Some(meta) = pl.meta else { return self.abort("ref without meta") };
                    self.write(st, q, 8, meta)?;
                }
                Ok(())
            }
            Rvalue::ThreadLocalRef(d) => {
                let id = self.static_id(*d)?;
                let p = self.ptr(id, 0);
                self.write(st, dst.ptr, 8, p)
            }
            Rvalue::Cast(k, o, _) => {
                let v = self.operand(st, fr, o)?;
                let r = self.cast(st, *k, &v, dst.lay)?;
                self.store(st, dst, &r)
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(st, fr, &ab.0)?;
                let b = self.operand(st, fr, &ab.1)?;
                let r = self.binop(*op, &a, &b, dst.lay)?;
                self.store(st, dst, &r)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, fr, o)?;
                match op {
                    UnOp::PtrMetadata => {
                        if v.lay.size.bytes() == 16 {
                            let n = self.part(&v, 8, 8);
                            self.write(st, dst.ptr, dst.lay.size.bytes() as u32, n)
                        } else {
                            Ok(())
                        }
                    }
                    UnOp::Not | UnOp::Neg => {
                        let n = self.scalar(&v);
                        let size = v.lay.size.bytes() as u32;
                        let isb = v.lay.ty.is_bool();
                        let isf = v.lay.ty.is_floating_point();
                        let neg = matches!(op, UnOp::Neg);
                        let n = self.m.map1(n, &mut |m, l| {
                            let l = crate::ops::unop(neg, size, isb, isf, l);
                            m.leaf(l)
                        });
                        self.store_scalar(st, dst, n)
                    }
                }
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(st, fr, p)?;
                let n = self.discriminant(st, &pl)?;
                self.store_scalar(st, dst, n)
            }
            Rvalue::Aggregate(k, ops) => {
                use mir::AggregateKind::*;
                match &**k {
                    Array(_) => {
                        let (el, stride) = self.elem(dst)?;
                        // evaluate first (operands may alias dest)
                        let mut vs = vec![];
                        for o in ops.iter() {
                            vs.push(self.operand(st, fr, o)?);
                        }
                        for (i, v) in vs.iter().enumerate() {
                            let ptr = self.ptr_add(dst.ptr, (i as u64 * stride) as i64);
                            self.store(st, &Pl { ptr, meta: None, lay: el }, v)?;
                        }
                        Ok(())
                    }
                    RawPtr(_, _) => {
                        let a = self.operand(st, fr, &ops[FieldIdx::from_u32(0)])?;
                        let b = self.operand(st, fr, &ops[FieldIdx::from_u32(1)])?;
                        let x = self.part(&a, 0, 8);
                        self.write(st, dst.ptr, 8, x)?;
                        if dst.lay.size.bytes() == 16 {
                            let y = self.scalar(&b);
                            let q = self.ptr_add(dst.ptr, 8);
                            self.write(st, q, 8, y)?;
                        }
                        Ok(())
                    }
                    kind => {
                        let mut vs = vec![];
                        for o in ops.iter() {
                            vs.push(self.operand(st, fr, o)?);
                        }
                        let (base, var, active) = match kind {
                            Adt(d, v, _, _, active) => {
                                if self.tcx.adt_def(*d).is_enum() {
                                    (Pl { lay: dst.lay.for_variant(&self.cx, *v), ..*dst }, Some(*v), *active)
                                } else {
                                    (*dst, None, *active)
                                }
                            }
                            _ => (*dst, None, None),
                        };
                        // clear destination (padding / other variants)
                        for (i, v) in vs.iter().enumerate() {
                            let idx = active.map_or(i, |f| f.as_usize());
                            let f = self.field(&base, idx)?;
                            let v = Val { lay: f.lay, cells: v.cells.clone() };
                            self.store(st, &f, &v)?;
                        }
                        if let Some(v) = var {
                            self.set_variant(st, dst, v)?;
                        }
                        Ok(())
                    }
                }
            }
            Rvalue::WrapUnsafeBinder(..) => self.abort("unsafe binder"),
        }
    }

    // ---------- bodies ----------
    pub fn body(&mut self, inst: Instance<'tcx>) -> R<Rc<FBody<'tcx>>> {
        if let Some(b) = self.bodies.get(&inst) {
            return match b {
                Some(b) => Ok(b.clone()),
                None => Err(format!("no MIR for {inst}")),
            };
        }
        let has = match inst.def {
            InstanceKind::Item(d) => self.tcx.is_mir_available(d),
            InstanceKind::Shim(_) => true,
            _ => false,
        };
        if !has {
            self.bodies.insert(inst, None);
            return self.abort(format!("no MIR for {inst}"));
        }
        let raw = self.tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.te, EarlyBinder::bind(self.tcx, raw.clone()));
        let mut layouts = vec![];
        let mut offs = vec![];
        let mut p = 0u64;
        for l in body.local_decls.iter() {
            let lay = self.layout(l.ty);
            let al = lay.align.abi.bytes().max(8);
            p = (p + al - 1) / al * al;
            layouts.push(lay);
            offs.push(p);
            p += lay.size.bytes();
        }
        let ipdom = crate::cfg::ipdoms(&body);
        let fb = Rc::new(FBody { body, layouts, offs, frame_size: p.max(1), ipdom });
        self.bodies.insert(inst, Some(fb.clone()));
        Ok(fb)
    }

    // ---------- control ----------
    /// run from block `bb` until `stop` (returns true with st positioned at stop) or Return (true) or all paths end (false)
    fn run(&mut self, st: &mut State, fr: &Frame<'tcx>, mut bb: BasicBlock, stop: Option<BasicBlock>) -> R<bool> {
        loop {
            if Some(bb) == stop {
                return Ok(true);
            }
            if self.m.overflow {
                return self.abort("decision diagram budget exceeded");
            }
            let b = fr.b.clone();
            let data = &b.body.basic_blocks[bb];
            for s in &data.statements {
                self.steps += 1;
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (pl, rv) = &**a;
                        self.stack.last_mut().unwrap().1 = s.source_info.span;
                        let dst = self.place(st, fr, pl)?;
                        self.rvalue_into(st, fr, rv, &dst)?;
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let dst = self.place(st, fr, place)?;
                        self.set_variant(st, &dst, *variant_index)?;
                    }
                    StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                        let (o, s) = (b.offs[l.as_usize()], b.layouts[l.as_usize()].size.bytes());
                        if s > 0 {
                            if let Some(a) = st.mem.get(fr.id) {
                                // only touch if something is there
                                let i = a.cells.partition_point(|c| c.off + (c.size as u64) <= o);
                                if a.cells.get(i).map_or(false, |c| c.off < o + s) {
                                    let a = st.mem.get_mut(fr.id).unwrap();
                                    crate::mem::punch(&mut self.m, &mut a.cells, o, s);
                                }
                            }
                        }
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(_) => {}
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let s = self.operand(st, fr, &c.src)?;
                            let d = self.operand(st, fr, &c.dst)?;
                            let n = self.operand(st, fr, &c.count)?;
                            let t = s.lay.ty.builtin_deref(true).unwrap();
                            let sz = self.layout(t).size.bytes();
                            let (sp, dp, cn) = (self.scalar(&s), self.scalar(&d), self.scalar(&n));
                            if !self.mem_copy(st, sp, dp, cn, sz)? {
                                return Ok(false);
                            }
                        }
                    },
                    _ => {}
                }
            }
            self.steps += 1;
            if self.steps > self.max_steps {
                return self.abort("step budget exceeded");
            }
            match STOP.load(std::sync::atomic::Ordering::Relaxed) {
                0 => {}
                1 => return self.abort("time budget exceeded"),
                _ => return self.abort("memory budget exceeded"),
            }
            let term = data.terminator();
            self.stack.last_mut().unwrap().1 = term.source_info.span;
            match &term.kind {
                TerminatorKind::Goto { target, .. } => bb = *target,
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => bb = *real_target,
                TerminatorKind::Return => return Ok(true),
                TerminatorKind::Unreachable => {
                    self.event(st, "ub", "unreachable code reached".into());
                    return Ok(false);
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v = self.operand(st, fr, discr)?;
                    let n = self.scalar(&v);
                    // map to unique target index
                    let mut uniq: Vec<BasicBlock> = vec![];
                    for t in targets.all_targets() {
                        if !uniq.contains(t) {
                            uniq.push(*t);
                        }
                    }
                    let idx_of = |t: BasicBlock| uniq.iter().position(|u| *u == t).unwrap() as u128;
                    let n = if self.m.as_leaf(n).is_some() { n } else { self.m.restrict(n, st.pc) };
                    let sel = match self.m.as_leaf(n) {
                        Some(Leaf::Int(x)) => {
                            bb = targets.target_for_value(x);
                            continue;
                        }
                        _ => {
                            // leaves which are not constants become non-deterministic choices
                            let ls = self.m.leaves(n);
                            let mut fresh: FxHashMap<Leaf, N> = FxHashMap::default();
                            for &l in ls.iter() {
                                let lf = self.m.as_leaf(l).unwrap();
                                match lf {
                                    Leaf::Int(_) => {}
                                    Leaf::Undef => {
                                        let c = self.m.is_leaf_eq(n, l);
                                        self.ub(st, c, "branch on an uninitialised value")?;
                                        let k = self.m.int(u64::MAX as u128);
                                        fresh.insert(lf, k);
                                    }
                                    _ => {
                                        let feas: Vec<usize> = (0..uniq.len())
                                            .filter(|i| match lf {
                                                Leaf::Range(lo, hi) => {
                                                    // feasible iff some value of the range maps there
                                                    targets.iter().any(|(val, t)| t == uniq[*i] && val >= lo && val <= hi)
                                                        || (targets.otherwise() == uniq[*i] && {
                                                            let inside = targets.iter().filter(|(v, _)| *v >= lo && *v <= hi).count() as u128;
                                                            inside < (hi - lo).saturating_add(1)
                                                        })
                                                }
                                                _ => true,
                                            })
                                            .collect();
                                        let k = if feas.len() == 1 {
                                            self.m.int(feas[0] as u128)
                                        } else {
                                            let (_, loc, _) = self.where_am_i();
                                            let var = self.m.new_var(&format!("choice@{loc}"), feas.len() as u32);
                                            let ch = feas.iter().map(|i| self.m.int(*i as u128)).collect();
                                            self.m.mk(var, ch)
                                        };
                                        fresh.insert(lf, k);
                                    }
                                }
                            }
                            self.m.map1(n, &mut |m, l| match l {
                                Leaf::Int(x) => m.int(idx_of(targets.target_for_value(x))),
                                other => fresh[&other],
                            })
                        }
                    };
                    if let Some(i) = self.m.as_int(sel) {
                        if i as usize >= uniq.len() {
                            return Ok(false);
                        }
                        bb = uniq[i as usize];
                        continue;
                    }
                    let p = b.ipdom[bb.as_usize()];
                    let alive = self.fork_on(st, sel, &mut |it, s2, l| {
                        let Leaf::Int(i) = l else { return Ok(false) };
                        if i as usize >= uniq.len() {
                            return Ok(false);
                        }
                        it.run(s2, fr, uniq[i as usize], p)
                    })?;
                    if !alive {
                        return Ok(false);
                    }
                    match p {
                        Some(p) => bb = p,
                        None => return Ok(true),
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let v = self.operand(st, fr, cond)?;
                    let n = self.scalar(&v);
                    let ok = if *expected { n } else { self.m.not(n) };
                    let ok = self.m.map1(ok, &mut |m, l| match l {
                        Leaf::Int(_) => m.leaf(l),
                        _ => m.top,
                    });
                    let msg = format!("{}", assert_msg(msg));
                    if !self.guard(st, ok, "panic", &msg)? {
                        return Ok(false);
                    }
                    bb = *target;
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pl = self.place(st, fr, place)?;
                    if !self.drop_place(st, &pl)? {
                        return Ok(false);
                    }
                    bb = *target;
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    self.callsites.insert((fr.inst.def_id(), term.source_info.span));
                    let f = self.operand(st, fr, func)?;
                    let mut avs = Vec::with_capacity(args.len());
                    for a in args.iter() {
                        avs.push(self.operand(st, fr, &a.node)?);
                    }
                    let dst = self.place(st, fr, destination)?;
                    let alive = self.call_operand(st, &f, avs, &dst, target.is_none())?;
                    if !alive {
                        return Ok(false);
                    }
                    match target {
                        Some(t) => bb = *t,
                        None => return Ok(false),
                    }
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => return Ok(false),
                other => return self.abort(format!("terminator {other:?}")),
            }
        }
    }

    /// keep only the part of the state where `ok` holds; report the rest
    pub fn guard(&mut self, st: &mut State, ok: N, kind: &'static str, msg: &str) -> R<bool> {
        if ok == self.m.t {
            return Ok(true);
        }
        let ls = self.m.leaves(ok);
        let mut unknown = false;
        for &l in ls.iter() {
            if self.m.as_int(l).is_none() {
                unknown = true;
            }
        }
        let okd = if unknown {
            // unknown outcome: may fail, may continue
            let t = self.m.t;
            let f = self.m.f;
            let fail = self.m.map1(ok, &mut |_, l| if l == Leaf::Int(1) { f } else { t });
            let pc = self.m.and(st.pc, fail);
            let s2 = State { mem: Mem::default(), pc };
            self.event(&s2, kind, format!("{msg} (not excluded)"));
            self.m.map1(ok, &mut |_, l| if l == Leaf::Int(0) { f } else { t })
        } else {
            let bad = self.m.not(ok);
            let pc = self.m.and(st.pc, bad);
            let s2 = State { mem: Mem::default(), pc };
            self.event(&s2, kind, msg.to_string());
            ok
        };
        st.pc = self.m.and(st.pc, okd);
        Ok(st.pc != self.m.f)
    }

    pub fn fork_on(&mut self, st: &mut State, sel: N, f: &mut dyn FnMut(&mut Self, &mut State, Leaf) -> R<bool>) -> R<bool> {
        let sel = self.m.restrict(sel, st.pc);
        if let Some(l) = self.m.as_leaf(sel) {
            return f(self, st, l);
        }
        let ls = self.m.leaves(sel);
        let mut acc: Option<State> = None;
        let depth = self.stack.len();
        for &l in ls.iter() {
            let cond = self.m.is_leaf_eq(sel, l);
            let mut s2 = st.clone();
            s2.pc = self.m.and(st.pc, cond);
            if s2.pc == self.m.f {
                continue;
            }
            self.forks += 1;
            let lf = self.m.as_leaf(l).unwrap();
            let alive = f(self, &mut s2, lf)?;
            self.stack.truncate(depth);
            if alive && s2.pc != self.m.f {
                acc = Some(match acc {
                    None => s2,
                    Some(a) => State { mem: Mem::merge(&mut self.m, cond, &s2.mem, &a.mem), pc: self.m.or(s2.pc, a.pc) },
                });
            }
        }
        match acc {
            Some(a) => {
                *st = a;
                Ok(true)
            }
            None => Ok(false),
        }
    }

    pub fn mem_copy(&mut self, st: &mut State, src: N, dst: N, count: N, elem: u64) -> R<bool> {
        if elem == 0 {
            return Ok(true);
        }
        self.fork_on(st, count, &mut |it, st, l| match l {
            Leaf::Int(c) => {
                let n = c as u64 * elem;
                if n == 0 {
                    return Ok(true);
                }
                let cells = it.read_region(st, src, n)?;
                it.write_region(st, dst, n, &cells)?;
                Ok(true)
            }
            Leaf::Undef => {
                it.event(st, "ub", "copy with uninitialised length".into());
                Ok(false)
            }
            _ => it.abort(format!("copy with unknown length {l:?}")),
        })
    }

    pub fn drop_place(&mut self, st: &mut State, pl: &Pl<'tcx>) -> R<bool> {
        let ty = pl.lay.ty;
        if let ty::Dynamic(..) = ty.kind() {
            let meta = pl.meta.unwrap();
            let p = pl.ptr;
            return self.fork_on(st, meta, &mut |it, st, l| {
                let Leaf::Ptr { alloc, .. } = l else { return it.abort("drop vtable") };
                let Some(GKind::VTable(t)) = it.gkind(alloc).cloned() else { return it.abort("drop vtable") };
                let lay = it.layout(t);
                it.drop_place(st, &Pl { ptr: p, meta: None, lay })
            });
        }
        if !ty.needs_drop(self.tcx, self.te) {
            return Ok(true);
        }
        let inst = Instance::resolve_drop_glue(self.tcx, ty);
        if let InstanceKind::Shim(ShimKind::DropGlue(_, None)) = inst.def {
            return Ok(true);
        }
        let argty = Ty::new_mut_ref(self.tcx, self.tcx.lifetimes.re_erased, ty);
        let al = self.layout(argty);
        let arg = match pl.meta {
            Some(m) if al.size.bytes() == 16 => self.pairval(al, pl.ptr, m),
            _ => self.sval(al, pl.ptr),
        };
        let ul = self.layout(self.tcx.types.unit);
        let dst = Pl { ptr: self.m.undef, meta: None, lay: ul };
        self.call(st, inst, vec![arg], &dst, false)
    }

    fn call_operand(&mut self, st: &mut State, f: &Val<'tcx>, args: Vec<Val<'tcx>>, dst: &Pl<'tcx>, diverges: bool) -> R<bool> {
        match *f.lay.ty.kind() {
            ty::FnDef(d, ga) => {
                let ga = ga.no_bound_vars().unwrap_or_else(|| panic!("bound fn args"));
                let span = self.stack.last().unwrap().1;
                let inst = Instance::expect_resolve(self.tcx, self.te, d, ga, span);
                self.call(st, inst, args, dst, diverges)
            }
            ty::FnPtr(..) => {
                let p = self.scalar(f);
                self.fork_on(st, p, &mut |it, st, l| match l {
                    Leaf::Ptr { alloc, .. } => match it.gkind(alloc).cloned() {
                        Some(GKind::Fn(i)) => {
                            if let InstanceKind::Shim(ShimKind::ClosureOnce { .. }) = i.def {
                                // a closure without captures used as a function: its arguments come one by one
                                let ty = i.args.type_at(0);
                                let lay = it.layout(ty);
                                let mut a = vec![Val { lay, cells: vec![] }];
                                a.extend(args.iter().cloned());
                                return it.call_body(st, i, a, dst);
                            }
                            it.call(st, i, args.clone(), dst, diverges)
                        }
                        _ => it.abort("call through data pointer"),
                    },
                    _ => it.abort(format!("call through unknown pointer {l:?}")),
                })
            }
            _ => self.abort(format!("call of {}", f.lay.ty)),
        }
    }

    pub fn call(&mut self, st: &mut State, inst: Instance<'tcx>, mut args: Vec<Val<'tcx>>, dst: &Pl<'tcx>, diverges: bool) -> R<bool> {
        // hooks
        let d = inst.def_id();
        if let InstanceKind::Virtual(vd, _) = inst.def {
            // receiver: find the wide pointer inside
            let recv = args[0].clone();
            let (data, vt) = (self.part(&recv, 0, 8), self.part(&recv, 8, 8));
            return self.fork_on(st, vt, &mut |it, st, l| {
                let Leaf::Ptr { alloc, .. } = l else { return it.abort(format!("virtual call through {l:?}")) };
                let Some(GKind::VTable(t)) = it.gkind(alloc).cloned() else { return it.abort("virtual call: not a vtable") };
                let trait_did = it.tcx.parent(vd);
                let _ = trait_did;
                let ga = it.tcx.mk_args_from_iter(std::iter::once(ty::GenericArg::from(t)).chain(inst.args.iter().skip(1)));
                let ci = Instance::expect_resolve_for_vtable(it.tcx, it.te, vd, ga, rustc_span::DUMMY_SP);
                let rty = Ty::new_mut_ptr(it.tcx, t);
                let rl = it.layout(rty);
                let mut a2 = args.clone();
                a2[0] = it.sval(rl, data);
                // by-value receivers through the vtable shim keep the pointer
                it.call(st, ci, a2, dst, diverges)
            });
        }
        if matches!(inst.def, InstanceKind::Item(_)) && !self.models.is_empty() {
            let md = match self.modeled.get(&d) {
                Some(x) => *x,
                None => {
                    let x = crate::hooks::model_of(self.tcx, &self.models, d);
                    self.modeled.insert(d, x);
                    x
                }
            };
            // what a model calls by its own name is what it stands for
            if let Some(md) = md.filter(|md| self.stack.last().map_or(true, |f| f.0.def_id() != *md)) {
                let span = self.stack.last().unwrap().1;
                // same types and constants in the same order, whatever the lifetimes
                let mut given = inst.args.iter().filter(|a| a.as_region().is_none());
                let margs = ty::GenericArgs::for_item(self.tcx, md, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => self.tcx.lifetimes.re_erased.into(),
                    _ => given.next().expect("a model has the parameters of what it stands for"),
                });
                let i2 = Instance::expect_resolve(self.tcx, self.te, md, margs, span);
                return self.call(st, i2, args, dst, diverges);
            }
        }
        let hook = match self.hooks.get(&d) {
            Some(h) => *h,
            None => {
                let h = crate::hooks::find(self.tcx, d);
                self.hooks.insert(d, h);
                h
            }
        };
        if let Some(h) = hook {
            self.stack.push((inst, rustc_span::DUMMY_SP));
            let r = crate::hooks::run(self, h, st, inst, &args, dst);
            self.stack.pop();
            match r? {
                crate::hooks::Out::Done(alive) => return Ok(alive),
                crate::hooks::Out::Continue => {}
            }
        }
        if let InstanceKind::Intrinsic(id) = inst.def {
            let name = self.tcx.item_name(id);
            match crate::intrinsics::run(self, name.as_str(), st, inst, &args, dst)? {
                crate::hooks::Out::Done(alive) => return Ok(alive),
                crate::hooks::Out::Continue => {
                    let i2 = Instance { def: InstanceKind::Item(id), args: inst.args };
                    return self.call_body(st, i2, args, dst);
                }
            }
        }
        if diverges && !d.is_local() {
            let name = self.tcx.def_path_str(d);
            let mut msg = name.clone();
            for a in &args {
                if let ty::Ref(_, t, _) = a.lay.ty.kind() {
                    if t.is_str() {
                        if let Some(s) = self.try_str(st, a) {
                            msg = format!("{name}: {s}");
                        }
                    }
                }
            }
            self.event(st, "panic", msg);
            return Ok(false);
        }
        if let InstanceKind::Shim(ShimKind::DropGlue(_, None)) = inst.def {
            return Ok(true);
        }
        // a tuple struct or variant used as a function
        if matches!(inst.def, InstanceKind::Item(_)) && self.tcx.is_constructor(d) && !self.tcx.is_mir_available(d) {
            let ty::Adt(adt, _) = dst.lay.ty.kind() else { return self.abort("constructor of no data type") };
            let v = adt.variant_index_with_ctor_id(d);
            let base = if adt.is_enum() { Pl { lay: dst.lay.for_variant(&self.cx, v), ..*dst } } else { *dst };
            for (i, a) in args.iter().enumerate() {
                let f = self.field(&base, i)?;
                self.store(st, &f, &Val { lay: f.lay, cells: a.cells.clone() })?;
            }
            if adt.is_enum() {
                self.set_variant(st, dst, v)?;
            }
            return Ok(true);
        }
        // rust-call: untuple last argument when calling a closure-like item
        if self.needs_untuple(inst) && !args.is_empty() {
            let last = args.pop().unwrap();
            let n = last.lay.fields.count();
            for i in 0..n {
                let fl = last.lay.field(&self.cx, i);
                let off = last.lay.fields.offset(i).bytes();
                let cells = sub_cells(&mut self.m, &last.cells, off, fl.size.bytes());
                args.push(Val { lay: fl, cells });
            }
        }
        self.call_body(st, inst, args, dst)
    }

    fn needs_untuple(&self, inst: Instance<'tcx>) -> bool {
        let ty = inst.ty(self.tcx, self.te);
        match ty.kind() {
            ty::Closure(..) => true,
            ty::FnDef(..) => ty.fn_sig(self.tcx).skip_binder().abi() == rustc_abi::ExternAbi::RustCall,
            _ => false,
        }
    }

    pub fn try_str(&mut self, st: &State, v: &Val<'tcx>) -> Option<String> {
        let (p, l) = (self.part(v, 0, 8), self.part(v, 8, 8));
        let len = self.m.as_int(l)?;
        let Some(Leaf::Ptr { .. }) = self.m.as_leaf(p) else { return None };
        let mut s = vec![];
        for i in 0..len.min(200) {
            let q = self.ptr_add(p, i as i64);
            let b = self.read(st, q, 1).ok()?;
            s.push(self.m.as_int(b)? as u8);
        }
        Some(String::from_utf8_lossy(&s).into_owned())
    }

    pub fn call_body(&mut self, st: &mut State, inst: Instance<'tcx>, args: Vec<Val<'tcx>>, dst: &Pl<'tcx>) -> R<bool> {
        let b = self.body(inst)?;
        if self.stack.len() > 4000 {
            return self.abort("recursion too deep");
        }
        *self.visited.entry(inst.def_id()).or_insert(0) += 1;
        let id = self.next_id;
        self.next_id += 1;
        assert!(id < GLOBAL);
        st.mem.set(id, Some(Alloc::new(b.frame_size, 16)));
        let fr = Frame { b: b.clone(), inst, id };
        if self.trace {
            eprintln!("{}> {}", " ".repeat(self.stack.len()), inst);
        }
        // args
        let n = b.body.arg_count;
        if let Some(spread) = b.body.spread_arg {
            // last arg local is a tuple collecting the remaining args
            let mut it = args.into_iter();
            for i in 1..=n {
                let l = Local::from_usize(i);
                let pl = self.local_pl(&fr, l);
                if l == spread {
                    let rest: Vec<_> = it.by_ref().collect();
                    for (k, v) in rest.iter().enumerate() {
                        let f = self.field(&pl, k)?;
                        self.store(st, &f, v)?;
                    }
                } else {
                    let v = it.next().unwrap();
                    self.store(st, &pl, &v)?;
                }
            }
        } else {
            if args.len() != n {
                return self.abort(format!("arg count mismatch calling {inst}: {} vs {n}", args.len()));
            }
            for (i, v) in args.iter().enumerate() {
                let pl = self.local_pl(&fr, Local::from_usize(i + 1));
                let size = pl.lay.size.bytes();
                if size > 0 {
                    self.write_region(st, pl.ptr, size, &v.cells)?;
                }
            }
        }
        self.stack.push((inst, b.body.span));
        let r = self.run(st, &fr, BasicBlock::from_u32(0), None);
        let alive = r?;
        self.stack.pop();
        if alive {
            let size = b.layouts[0].size.bytes();
            if size > 0 {
                let rp = self.local_pl(&fr, Local::from_u32(0));
                let cells = self.read_region(st, rp.ptr, size)?;
                if self.m.as_leaf(dst.ptr) != Some(Leaf::Undef) {
                    self.write_region(st, dst.ptr, size, &cells)?;
                }
            }
        }
        st.mem.set(id, None);
        Ok(alive)
    }

    /// write a symbolic value of type `lay` at `p`
    pub fn any(&mut self, st: &mut State, p: &Pl<'tcx>, name: &str) -> R<()> {
        let ty = p.lay.ty;
        match ty.kind() {
            ty::Bool => {
                let v = self.m.new_var(name, 2);
                self.names.insert(v, vec!["false".into(), "true".into()]);
                let (f, t) = (self.m.f, self.m.t);
                let n = self.m.mk(v, vec![f, t]);
                self.write(st, p.ptr, 1, n)
            }
            ty::Adt(a, _) if a.is_enum() => {
                let vs: Vec<VariantIdx> = a.variants().indices().filter(|v| !p.lay.for_variant(&self.cx, *v).is_uninhabited()).collect();
                if vs.len() == 1 {
                    let pv = Pl { lay: p.lay.for_variant(&self.cx, vs[0]), ..*p };
                    for i in 0..pv.lay.fields.count() {
                        let f = self.field(&pv, i)?;
                        self.any(st, &f, &format!("{name}.{i}"))?;
                    }
                    return self.set_variant(st, p, vs[0]);
                }
                let var = self.m.new_var(name, vs.len() as u32);
                self.names.insert(var, vs.iter().map(|v| a.variant(*v).name.to_string()).collect());
                let tbl = (0..vs.len()).map(|i| self.m.int(i as u128)).collect();
                let sel = self.m.mk(var, tbl);
                let nm = name.to_string();
                let pp = *p;
                self.fork_on(st, sel, &mut |it, st, l| {
                    let Leaf::Int(i) = l else { unreachable!() };
                    let v = vs[i as usize];
                    let pv = Pl { lay: pp.lay.for_variant(&it.cx, v), ..pp };
                    for i in 0..pv.lay.fields.count() {
                        let f = it.field(&pv, i)?;
                        it.any(st, &f, &format!("{nm}.{i}"))?;
                    }
                    it.set_variant(st, &pp, v)?;
                    Ok(true)
                })?;
                Ok(())
            }
            ty::Adt(a, _) if a.is_struct() => {
                for i in 0..p.lay.fields.count() {
                    let f = self.field(p, i)?;
                    let fname = a.non_enum_variant().fields[FieldIdx::from_usize(i)].name;
                    self.any(st, &f, &format!("{name}.{fname}"))?;
                }
                Ok(())
            }
            ty::Tuple(_) => {
                for i in 0..p.lay.fields.count() {
                    let f = self.field(p, i)?;
                    self.any(st, &f, &format!("{name}.{i}"))?;
                }
                Ok(())
            }
            ty::Array(_, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap();
                let (el, stride) = self.elem(p)?;
                for i in 0..n {
                    let ptr = self.ptr_add(p.ptr, (i * stride) as i64);
                    self.any(st, &Pl { ptr, meta: None, lay: el }, &format!("{name}[{i}]"))?;
                }
                Ok(())
            }
            ty::Int(_) | ty::Uint(_) => {
                let s = p.lay.size.bytes() as u32;
                let n = self.m.leaf(Leaf::Range(0, mask(s)));
                self.write(st, p.ptr, s, n)
            }
            _ => self.abort(format!("cannot make symbolic {ty}")),
        }
    }
}

pub fn sub_cells(m: &mut Mdd, cells: &[Cell], off: u64, size: u64) -> Vec<Cell> {
    let end = off + size;
    let mut out = vec![];
    for c in cells {
        let (s, e) = (c.off.max(off), (c.off + c.size as u64).min(end));
        if s < e {
            let v = if s == c.off && e == c.off + c.size as u64 { c.v } else { read_cells(m, std::slice::from_ref(c), false, s, (e - s) as u32) };
            out.push(Cell { off: s - off, size: (e - s) as u32, v });
        }
    }
    out
}

fn assert_msg<'tcx>(m: &mir::AssertMessage<'tcx>) -> String {
    use mir::AssertKind::*;
    match m {
        BoundsCheck { .. } => "index out of bounds".into(),
        Overflow(op, ..) => format!("arithmetic overflow in {op:?}"),
        OverflowNeg(_) => "negation overflow".into(),
        DivisionByZero(_) => "division by zero".into(),
        RemainderByZero(_) => "remainder by zero".into(),
        _ => "assertion".into(),
    }
}

#[allow(unused)]
fn unused(_: FieldsShape<FieldIdx>) {}
