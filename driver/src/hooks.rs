//! Models of runtime primitives and of the harness intrinsics (module `sta` of the harness crate).
use crate::interp::{GKind, Interp, Pl, State, Val, R};
use crate::mdd::{Leaf, N};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hook {
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Nop,
    False,
    Any,
    Pick,
    Interval,
    Opaque,
    Assume,
    Check,
    Out,
    Reset,
    Learn,
    Havoc,
    Pieces,
    Trace,
    GenRange,
    Alive,
    Taint,
    Uninterp,
    Window,
}

pub enum Out {
    Done(bool),
    Continue,
}

/// structured, diagram-valued dump of a Rust value
#[derive(Clone, Debug)]
pub enum J {
    Num(N, String),
    Rec(String, Vec<(String, J)>),
    Enum(String, N, Vec<(String, Vec<(String, J)>)>),
    Seq(N, Vec<J>),
    Str(N, Vec<N>),
    Null,
    Text(String),
}

pub struct OutRec {
    pub tag: String,
    pub pc: N,
    pub val: J,
}

#[derive(Default)]
pub struct Tables<'tcx> {
    pub index: FxHashMap<Vec<u128>, usize>,
    pub states: Vec<Vec<u128>>,
    pub decoded: Vec<J>,
    pub ty: Option<Ty<'tcx>>,
}

#[derive(Default)]
pub struct Ext<'tcx> {
    pub outs: Vec<OutRec>,
    pub tables: FxHashMap<(Ty<'tcx>, Ty<'tcx>), Tables<'tcx>>,
    pub joint: FxHashMap<Vec<Leaf>, u128>,
    pub joint_rev: Vec<Vec<Leaf>>,
    pub piece_trait: Option<DefId>,
    pub ranges: Vec<(String, String)>,
    pub uninterp: FxHashMap<(String, Vec<N>), Vec<N>>,
    /// which random draws are arbitrary (first, how many) and how the others are fixed
    pub window: Option<(usize, usize, usize)>,
    pub draws: usize,
}

pub fn find(tcx: TyCtxt<'_>, d: DefId) -> Option<Hook> {
    let name = tcx.opt_item_name(d)?;
    let name = name.as_str();
    if tcx.is_foreign_item(d) {
        return match name {
            "__rust_alloc" => Some(Hook::Alloc),
            "__rust_alloc_zeroed" => Some(Hook::AllocZeroed),
            "__rust_dealloc" => Some(Hook::Dealloc),
            "__rust_realloc" => Some(Hook::Realloc),
            "__rust_no_alloc_shim_is_unstable_v2" | "miri_promise_symbolic_alignment" => Some(Hook::Nop),
            _ => None,
        };
    }
    if d.krate == LOCAL_CRATE {
        let p = tcx.opt_parent(d)?;
        if tcx.opt_item_name(p).map_or(false, |n| n.as_str() == "sta") {
            return match name {
                "any" => Some(Hook::Any),
                "pick" => Some(Hook::Pick),
                "interval" => Some(Hook::Interval),
                "opaque" => Some(Hook::Opaque),
                "assume" => Some(Hook::Assume),
                "check" => Some(Hook::Check),
                "out" => Some(Hook::Out),
                "reset" => Some(Hook::Reset),
                "learn" => Some(Hook::Learn),
                "havoc" => Some(Hook::Havoc),
                "pieces" => Some(Hook::Pieces),
                "trace" => Some(Hook::Trace),
                "alive" => Some(Hook::Alive),
                "uninterp" => Some(Hook::Uninterp),
                "window" => Some(Hook::Window),
                _ => None,
            };
        }
        return None;
    }
    if name == "panicking" && tcx.crate_name(d.krate).as_str() == "std" {
        return Some(Hook::False);
    }
    if name == "gen_range" && tcx.crate_name(d.krate).as_str() == "rand" {
        return Some(Hook::GenRange);
    }
    None
}

/// what stands for functions of the environment: the functions in the harness's module `model`,
/// named after crate, type or module, and function
pub fn models(tcx: TyCtxt<'_>) -> FxHashMap<String, DefId> {
    let mut out = FxHashMap::default();
    for d in tcx.mir_keys(()) {
        let d = d.to_def_id();
        let Some(p) = tcx.opt_parent(d).and_then(|p| tcx.opt_parent(p)) else { continue };
        if tcx.opt_item_name(p).map_or(false, |n| n.as_str() == "model") {
            if let Some(n) = tcx.opt_item_name(d) {
                out.insert(n.to_string(), d);
            }
        }
    }
    out
}

pub fn model_of(tcx: TyCtxt<'_>, models: &FxHashMap<String, DefId>, d: DefId) -> Option<DefId> {
    if d.krate == LOCAL_CRATE {
        return None;
    }
    let name = tcx.opt_item_name(d)?;
    let p = tcx.opt_parent(d)?;
    let owner = match tcx.opt_item_name(p) {
        Some(n) => n.to_string(),
        None => match tcx.def_kind(p) {
            rustc_hir::def::DefKind::Impl { .. } => match tcx.type_of(p).skip_binder().peel_refs().kind() {
                ty::Adt(a, _) => tcx.item_name(a.did()).to_string(),
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => tcx.type_of(p).skip_binder().to_string(),
                _ => return None,
            },
            _ => tcx.crate_name(d.krate).to_string(),
        },
    };
    models.get(&format!("{}_{}_{}", tcx.crate_name(d.krate), owner, name)).copied()
}

fn fresh_choice<'tcx>(it: &mut Interp<'tcx>, name: &str, lo: u128, n: u128) -> N {
    if n == 1 {
        return it.m.int(lo);
    }
    let v = it.m.new_var(name, n as u32);
    let ch = (0..n).map(|i| it.m.int(lo + i)).collect();
    it.m.mk(v, ch)
}

pub fn run<'tcx>(it: &mut Interp<'tcx>, h: Hook, st: &mut State, inst: Instance<'tcx>, args: &[Val<'tcx>], dst: &Pl<'tcx>) -> R<Out> {
    let targ = |i: usize| inst.args.types().nth(i).unwrap();
    let d = *dst;
    match h {
        Hook::Nop => {}
        Hook::False => {
            let f = it.m.f;
            it.store_scalar(st, dst, f)?;
        }
        Hook::Alloc | Hook::AllocZeroed => {
            let (s, a) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let a = it.m.as_int(a).unwrap_or(16) as u64;
            let alive = it.fork_on(st, s, &mut |it, st, l| {
                let Leaf::Int(n) = l else { return it.abort(format!("allocation of unknown size {l:?}")) };
                let id = it.new_alloc(st, n as u64, a, h == Hook::AllocZeroed);
                let p = it.ptr(id, 0);
                it.store_scalar(st, &d, p)?;
                Ok(true)
            })?;
            return Ok(Out::Done(alive));
        }
        Hook::Dealloc => {
            let p = it.scalar(&args[0]);
            if let Some(Leaf::Ptr { alloc, .. }) = it.m.as_leaf(p) {
                if st.mem.get(alloc).is_none() {
                    it.event(st, "ub", "double free".into());
                }
                st.mem.set(alloc, None);
            }
        }
        Hook::Realloc => {
            let (p, o, a, n) = (it.scalar(&args[0]), it.scalar(&args[1]), it.scalar(&args[2]), it.scalar(&args[3]));
            let a = it.m.as_int(a).unwrap_or(16) as u64;
            let alive = it.fork_on(st, n, &mut |it, st, l| {
                let Leaf::Int(n) = l else { return it.abort("realloc to unknown size") };
                it.fork_on(st, o, &mut |it, st, l| {
                    let Leaf::Int(o) = l else { return it.abort("realloc of unknown size") };
                    let id = it.new_alloc(st, n as u64, a, false);
                    let k = (o as u64).min(n as u64);
                    let cells = it.read_region(st, p, k)?;
                    let q = it.ptr(id, 0);
                    it.write_region(st, q, k, &cells)?;
                    if let Some(Leaf::Ptr { alloc, .. }) = it.m.as_leaf(p) {
                        st.mem.set(alloc, None);
                    }
                    it.store_scalar(st, &d, q)?;
                    Ok(true)
                })
            })?;
            return Ok(Out::Done(alive));
        }
        Hook::Any => {
            let name = it.try_str(st, &args[0]).unwrap_or_default();
            it.any(st, dst, &name)?;
        }
        Hook::Pick => {
            let name = it.try_str(st, &args[0]).unwrap_or_default();
            let n = it.scalar(&args[1]);
            let Some(n) = it.m.as_int(n) else { return it.abort("pick with symbolic bound") };
            let v = fresh_choice(it, &name, 0, n);
            it.store_scalar(st, dst, v)?;
        }
        Hook::Interval => {
            let (lo, hi) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let (Some(lo), Some(hi)) = (it.m.as_int(lo), it.m.as_int(hi)) else { return it.abort("interval with symbolic bound") };
            let n = it.m.leaf(if lo == hi { Leaf::Int(lo) } else { Leaf::Range(lo, hi) });
            it.store_scalar(st, dst, n)?;
        }
        Hook::Opaque => {
            let prims = it.prims(dst.lay)?;
            for (o, s) in prims {
                let q = it.ptr_add(dst.ptr, o as i64);
                let t = it.m.top;
                it.write(st, q, s, t)?;
            }
        }
        Hook::Uninterp => {
            // uninterp::<A, B>(name, &A) -> B : same argument diagram gives same unknown result
            let name = it.try_str(st, &args[0]).unwrap_or_default();
            let p = it.val_deref(&args[1])?;
            let prims = it.prims(p.lay)?;
            let mut key = vec![];
            for (o, s) in prims {
                let q = it.ptr_add(p.ptr, o as i64);
                key.push(it.read(st, q, s)?);
            }
            let outp = it.prims(dst.lay)?;
            let k = (name, key);
            let vals = match it.ext.uninterp.get(&k) {
                Some(v) => v.clone(),
                None => {
                    let base = it.ext.uninterp.len() as u32 * 16;
                    let v: Vec<N> = (0..outp.len()).map(|i| it.m.leaf(Leaf::Sym(base + i as u32))).collect();
                    it.ext.uninterp.insert(k, v.clone());
                    v
                }
            };
            for (i, (o, s)) in outp.into_iter().enumerate() {
                let q = it.ptr_add(dst.ptr, o as i64);
                it.write(st, q, s, vals[i])?;
            }
        }
        Hook::Assume => {
            let c = it.scalar(&args[0]);
            let (t, f) = (it.m.t, it.m.f);
            let c = it.m.map1(c, &mut |_, l| if l == Leaf::Int(0) { f } else { t });
            st.pc = it.m.and(st.pc, c);
            return Ok(Out::Done(st.pc != it.m.f));
        }
        Hook::Check => {
            let c = it.scalar(&args[0]);
            let msg = it.try_str(st, &args[1]).unwrap_or_default();
            *it.checks.entry(msg.clone()).or_insert(0) += 1;
            let (t, f) = (it.m.t, it.m.f);
            let bad = it.m.map1(c, &mut |_, l| if l == Leaf::Int(0) { t } else { f });
            let unk = it.m.map1(c, &mut |_, l| if matches!(l, Leaf::Int(_)) { f } else { t });
            for (k, b) in [("check", bad), ("unknown", unk)] {
                let pc = it.m.and(st.pc, b);
                let s2 = State { mem: Default::default(), pc };
                it.event(&s2, k, msg.clone());
            }
        }
        Hook::Alive => {
            // alive(name): records under which inputs this point is reached
            let msg = it.try_str(st, &args[0]).unwrap_or_default();
            it.ext.outs.push(OutRec { tag: msg, pc: st.pc, val: J::Null });
        }
        Hook::Out => {
            let tag = it.try_str(st, &args[0]).unwrap_or_default();
            let p = it.val_deref(&args[1])?;
            let val = it.dump(st, &p, 0)?;
            it.ext.outs.push(OutRec { tag, pc: st.pc, val });
        }
        Hook::Reset => {
            it.ext.tables.retain(|k, _| k.0 != targ(0));
        }
        Hook::Learn => {
            let p = it.val_deref(&args[0])?;
            let c = p.lay.ty;
            let ps = it.find_pieces(&p, "")?;
            if ps.is_empty() {
                return it.abort(format!("no piece arrays found in {c}"));
            }
            let mut changed = false;
            for (_, _, pl) in ps {
                let (j, _) = it.joint_of(st, &pl)?;
                let j = it.m.restrict(j, st.pc);
                let ls = it.m.leaves(j);
                for &l in ls.iter() {
                    let Some(Leaf::Int(k)) = it.m.as_leaf(l) else { return it.abort("unknown piece state") };
                    let tup = it.ext.joint_rev[k as usize].clone();
                    let Some(vals) = tup.iter().map(|l| if let Leaf::Int(x) = l { Some(*x) } else { None }).collect::<Option<Vec<_>>>() else {
                        return it.abort(format!("piece state not determined: {tup:?}"));
                    };
                    if it.add_state(st, c, pl.lay.ty, &vals)?.1 {
                        changed = true;
                    }
                }
            }
            let n = it.m.boolean(changed);
            it.store_scalar(st, dst, n)?;
        }
        Hook::Havoc => {
            let p = it.val_deref(&args[0])?;
            let c = p.lay.ty;
            let label = it.try_str(st, &args[1]).unwrap_or_default();
            let ps = it.find_pieces(&p, "")?;
            for (path, i, pl) in ps {
                let prims = it.prims(pl.lay)?;
                let Some(t) = it.ext.tables.get(&(c, pl.lay.ty)) else { return it.abort("havoc before learn") };
                let states = t.states.clone();
                let var = it.m.new_var(&format!("{label}{path}[{i}]"), states.len() as u32);
                for (k, (o, s)) in prims.iter().enumerate() {
                    let ch = states.iter().map(|v| it.m.int(v[k])).collect();
                    let n = if states.len() == 1 { it.m.int(states[0][k]) } else { it.m.mk(var, ch) };
                    let q = it.ptr_add(pl.ptr, *o as i64);
                    it.write(st, q, *s, n)?;
                }
            }
        }
        Hook::Pieces => {
            let tag = it.try_str(st, &args[0]).unwrap_or_default();
            let p = it.val_deref(&args[1])?;
            let c = p.lay.ty;
            let ps = it.find_pieces(&p, "")?;
            let mut recs = vec![];
            for (path, i, pl) in ps {
                let (j, _) = it.joint_of(st, &pl)?;
                let j = it.m.restrict(j, st.pc);
                // joint tuple -> table index
                let ls = it.m.leaves(j);
                let mut map: FxHashMap<u128, u128> = FxHashMap::default();
                for &l in ls.iter() {
                    let Some(Leaf::Int(k)) = it.m.as_leaf(l) else { return it.abort("unknown piece state") };
                    let tup = it.ext.joint_rev[k as usize].clone();
                    let Some(vals) = tup.iter().map(|l| if let Leaf::Int(x) = l { Some(*x) } else { None }).collect::<Option<Vec<_>>>() else {
                        return it.abort(format!("piece state not determined: {tup:?}"));
                    };
                    let (ix, _) = it.add_state(st, c, pl.lay.ty, &vals)?;
                    map.insert(k, ix as u128);
                }
                let n = it.m.map1(j, &mut |m, l| match l {
                    Leaf::Int(k) => m.int(map[&k]),
                    _ => m.top,
                });
                recs.push((format!("{path}[{i}]"), J::Num(n, format!("{}", pl.lay.ty))));
            }
            it.ext.outs.push(OutRec { tag, pc: st.pc, val: J::Rec(format!("{c}"), recs) });
        }
        Hook::Trace => {
            let on = it.scalar(&args[0]);
            it.trace = it.m.as_int(on) == Some(1);
        }
        Hook::GenRange => {
            // rand::Rng::gen_range(&mut self, range) : any value of the range
            let r = args[1].clone();
            let tyname = format!("{}", r.lay.ty);
            let (t, incl) = match r.lay.ty.kind() {
                ty::Adt(a, ga) => {
                    let n = it.tcx.item_name(a.did());
                    (ga.type_at(0), match n.as_str() {
                        "Range" => false,
                        "RangeInclusive" => true,
                        _ => return it.abort(format!("gen_range({tyname})")),
                    })
                }
                _ => return it.abort(format!("gen_range({tyname})")),
            };
            if !t.is_integral() {
                return it.abort(format!("gen_range({tyname})"));
            }
            let sz = it.layout(t).size.bytes() as u32;
            let (o0, o1) = (r.lay.fields.offset(0).bytes(), r.lay.fields.offset(1).bytes());
            let (lo, hi) = (it.part(&r, o0, sz), it.part(&r, o1, sz));
            let (_, loc, _) = it.where_am_i();
            let alive = it.fork_on(st, lo, &mut |it, st, l| {
                let Leaf::Int(lo) = l else { return it.abort("gen_range bounds") };
                let loc = loc.clone();
                it.fork_on(st, hi, &mut |it, st, l| {
                    let Leaf::Int(hi) = l else { return it.abort("gen_range bounds") };
                    let (lo2, hi2) = (crate::ops::sext(lo, sz), crate::ops::sext(hi, sz));
                    let n = hi2 - lo2 + incl as i128;
                    if n <= 0 {
                        it.event(st, "panic", "gen_range of an empty range".into());
                        return Ok(false);
                    }
                    if n > 4096 {
                        return it.abort("gen_range too wide");
                    }
                    let i = it.ext.draws;
                    it.ext.draws += 1;
                    let k = match it.ext.window {
                        Some((lo, len, base)) if i < lo || i >= lo + len => {
                            let v = if base == 0 { n as u128 - 1 } else { (i as u128 * 7 + base as u128) % n as u128 };
                            it.m.int(v)
                        }
                        _ => fresh_choice(it, &format!("rng@{loc}"), 0, n as u128),
                    };
                    let base = it.m.int(lo);
                    let v = it.int_bin(BinOp::Add, sz, true, base, k);
                    it.store_scalar(st, &d, v)?;
                    Ok(true)
                })
            })?;
            return Ok(Out::Done(alive));
        }
        Hook::Taint => {}
        Hook::Window => {
            let mut v = [0usize; 3];
            for i in 0..3 {
                let a = it.scalar(&args[i]);
                let Some(x) = it.m.as_int(a) else { return it.abort("window of unknown size") };
                v[i] = x as usize;
            }
            it.ext.window = Some((v[0], v[1], v[2]));
            it.ext.draws = 0;
        }
    }
    Ok(Out::Done(true))
}

impl<'tcx> Interp<'tcx> {
    /// (offset, size) of the primitive scalars of a plain-data type
    pub fn prims(&mut self, lay: rustc_middle::ty::layout::TyAndLayout<'tcx>) -> R<Vec<(u64, u32)>> {
        let mut v = vec![];
        self.prims_into(lay, 0, &mut v)?;
        Ok(v)
    }
    fn prims_into(&mut self, lay: rustc_middle::ty::layout::TyAndLayout<'tcx>, base: u64, out: &mut Vec<(u64, u32)>) -> R<()> {
        if lay.size.bytes() == 0 {
            return Ok(());
        }
        match lay.ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                out.push((base, lay.size.bytes() as u32));
                Ok(())
            }
            ty::Adt(a, _) if a.is_struct() => {
                for i in 0..lay.fields.count() {
                    let f = lay.field(&self.cx, i);
                    self.prims_into(f, base + lay.fields.offset(i).bytes(), out)?;
                }
                Ok(())
            }
            ty::Tuple(_) => {
                for i in 0..lay.fields.count() {
                    let f = lay.field(&self.cx, i);
                    self.prims_into(f, base + lay.fields.offset(i).bytes(), out)?;
                }
                Ok(())
            }
            ty::Array(..) => {
                let n = lay.fields.count();
                let f = lay.field(&self.cx, 0);
                for i in 0..n {
                    self.prims_into(f, base + lay.fields.offset(i).bytes(), out)?;
                }
                Ok(())
            }
            ty::Adt(a, _) if a.is_enum() && lay.size.bytes() <= 8 && a.variants().iter().all(|v| v.fields.is_empty()) => {
                out.push((base, lay.size.bytes() as u32));
                Ok(())
            }
            _ => self.abort(format!("plain data type expected, got {}", lay.ty)),
        }
    }

    fn piece_trait(&mut self) -> R<DefId> {
        if let Some(d) = self.ext.piece_trait {
            return Ok(d);
        }
        for t in self.tcx.all_traits_including_private() {
            if self.tcx.crate_name(t.krate).as_str() == "barbarosa" && self.tcx.item_name(t).as_str() == "Piece" {
                self.ext.piece_trait = Some(t);
                return Ok(t);
            }
        }
        self.abort("trait barbarosa::..::Piece not found")
    }

    /// all array elements (at any depth) whose type implements `Piece`
    pub fn find_pieces(&mut self, p: &Pl<'tcx>, path: &str) -> R<Vec<(String, usize, Pl<'tcx>)>> {
        let mut out = vec![];
        self.find_pieces_into(p, path.to_string(), &mut out)?;
        Ok(out)
    }
    fn implements_piece(&mut self, t: Ty<'tcx>) -> R<bool> {
        use rustc_trait_selection::infer::{InferCtxtExt, TyCtxtInferExt};
        let tr = self.piece_trait()?;
        let infcx = self.tcx.infer_ctxt().build(rustc_middle::ty::TypingMode::PostAnalysis);
        let n = self.tcx.generics_of(tr).own_params.len();
        // Self plus parameters: try with defaults as inference variables
        let args: Vec<ty::GenericArg<'tcx>> = std::iter::once(ty::GenericArg::from(t)).collect();
        let ok = if n <= 1 {
            infcx.type_implements_trait(tr, args, self.te.param_env).must_apply_modulo_regions()
        } else {
            let ids = infcx.fresh_args_for_item(rustc_span::DUMMY_SP, tr);
            let rest: Vec<ty::GenericArg<'tcx>> = std::iter::once(ty::GenericArg::from(t)).chain(ids.iter().skip(1)).collect();
            infcx.type_implements_trait(tr, rest, self.te.param_env).may_apply()
        };
        Ok(ok)
    }
    fn find_pieces_into(&mut self, p: &Pl<'tcx>, path: String, out: &mut Vec<(String, usize, Pl<'tcx>)>) -> R<()> {
        match p.lay.ty.kind() {
            ty::Array(el, n) => {
                if self.implements_piece(*el)? {
                    let n = n.try_to_target_usize(self.tcx).unwrap();
                    let (l, s) = self.elem(p)?;
                    for i in 0..n {
                        let ptr = self.ptr_add(p.ptr, (i * s) as i64);
                        out.push((path.clone(), i as usize, Pl { ptr, meta: None, lay: l }));
                    }
                }
                Ok(())
            }
            ty::Adt(a, _) if a.is_struct() => {
                for i in 0..p.lay.fields.count() {
                    let f = self.field(p, i)?;
                    let nm = a.non_enum_variant().fields[rustc_abi::FieldIdx::from_usize(i)].name;
                    self.find_pieces_into(&f, format!("{path}.{nm}"), out)?;
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
    /// diagram whose leaves are indices of tuples of scalar leaves
    pub fn joint_of(&mut self, st: &State, pl: &Pl<'tcx>) -> R<(N, usize)> {
        let prims = self.prims(pl.lay)?;
        let mut acc: Option<N> = None;
        for (o, s) in &prims {
            let q = self.ptr_add(pl.ptr, *o as i64);
            let n = self.read(st, q, *s)?;
            let n = self.m.restrict(n, st.pc);
            let Interp { m, ext, .. } = self;
            let a = match acc {
                None => {
                    let k = intern(ext, vec![]);
                    m.int(k)
                }
                Some(a) => a,
            };
            acc = Some(m.map2_cached(0xA100_0000, a, n, &mut |m, x, y| {
                let Leaf::Int(x) = x else { unreachable!() };
                let mut t = ext.joint_rev[x as usize].clone();
                t.push(y);
                let k = intern(ext, t);
                m.int(k)
            }));
        }
        Ok((acc.unwrap_or(self.m.f), prims.len()))
    }
    fn add_state(&mut self, st: &State, c: Ty<'tcx>, t: Ty<'tcx>, vals: &[u128]) -> R<(usize, bool)> {
        let tb = self.ext.tables.entry((c, t)).or_default();
        if let Some(i) = tb.index.get(vals) {
            return Ok((*i, false));
        }
        let i = tb.states.len();
        tb.index.insert(vals.to_vec(), i);
        tb.states.push(vals.to_vec());
        tb.ty = Some(t);
        let lay = self.layout(t);
        let prims = self.prims(lay)?;
        let mut s2 = st.clone();
        let id = self.new_alloc(&mut s2, lay.size.bytes(), 16, false);
        for (k, (o, s)) in prims.iter().enumerate() {
            let p = self.ptr(id, *o as i64);
            let n = self.m.int(vals[k]);
            self.write(&mut s2, p, *s, n)?;
        }
        let ptr = self.ptr(id, 0);
        let j = self.dump(&s2, &Pl { ptr, meta: None, lay }, 0)?;
        self.ext.tables.get_mut(&(c, t)).unwrap().decoded.push(j);
        Ok((i, true))
    }

    pub fn dump(&mut self, st: &State, p: &Pl<'tcx>, depth: u32) -> R<J> {
        if depth > 40 {
            return Ok(J::Text("...".into()));
        }
        let ty = p.lay.ty;
        Ok(match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let n = self.read(st, p.ptr, p.lay.size.bytes() as u32)?;
                let n = self.m.restrict(n, st.pc);
                J::Num(n, format!("{ty}"))
            }
            ty::Adt(a, _) if a.is_struct() => {
                let nm = self.tcx.item_name(a.did()).to_string();
                let mut fs = vec![];
                for i in 0..p.lay.fields.count() {
                    let f = self.field(p, i)?;
                    let fname = a.non_enum_variant().fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string();
                    fs.push((fname, self.dump(st, &f, depth + 1)?));
                }
                J::Rec(nm, fs)
            }
            ty::Tuple(_) | ty::Closure(..) => {
                let mut fs = vec![];
                for i in 0..p.lay.fields.count() {
                    let f = self.field(p, i)?;
                    fs.push((i.to_string(), self.dump(st, &f, depth + 1)?));
                }
                J::Rec("".into(), fs)
            }
            ty::Adt(a, _) if a.is_enum() => {
                let nm = self.tcx.item_name(a.did()).to_string();
                let vi = self.variant_index(st, p)?;
                let vi = self.m.restrict(vi, st.pc);
                let mut vs = vec![];
                for v in a.variants().indices() {
                    let vn = a.variant(v).name.to_string();
                    let k = self.m.int(v.as_u32() as u128);
                    let c = self.m.is_leaf_eq(vi, k);
                    let pc = self.m.and(st.pc, c);
                    let mut fs = vec![];
                    if pc != self.m.f {
                        let s2 = State { mem: st.mem.clone(), pc };
                        let pv = Pl { lay: p.lay.for_variant(&self.cx, v), ..*p };
                        for i in 0..pv.lay.fields.count() {
                            let f = self.field(&pv, i)?;
                            let fname = a.variant(v).fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string();
                            fs.push((fname, self.dump(&s2, &f, depth + 1)?));
                        }
                    }
                    vs.push((vn, fs));
                }
                J::Enum(nm, vi, vs)
            }
            ty::Array(..) => {
                let n = p.lay.fields.count();
                let ln = self.m.int(n as u128);
                let (el, s) = self.elem(p)?;
                let mut v = vec![];
                for i in 0..n {
                    let ptr = self.ptr_add(p.ptr, (i as u64 * s) as i64);
                    v.push(self.dump(st, &Pl { ptr, meta: None, lay: el }, depth + 1)?);
                }
                J::Seq(ln, v)
            }
            ty::Slice(_) | ty::Str => {
                let len = p.meta.unwrap();
                let len = self.m.restrict(len, st.pc);
                let ls = self.m.leaves(len);
                let mut mx = 0;
                for &l in ls.iter() {
                    match self.m.as_int(l) {
                        Some(x) => mx = mx.max(x),
                        None => return self.abort("dump of slice with unknown length"),
                    }
                }
                let (el, s) = self.elem(p)?;
                let mut v = vec![];
                let mut b = vec![];
                for i in 0..mx as u64 {
                    let k = self.m.int(i as u128);
                    let c = self.int_bin(BinOp::Gt, 8, false, len, k);
                    let pc = self.m.and(st.pc, c);
                    let s2 = State { mem: st.mem.clone(), pc };
                    let ptr = self.ptr_add(p.ptr, (i * s) as i64);
                    if ty.is_str() {
                        let n = self.read(&s2, ptr, 1)?;
                        b.push(self.m.restrict(n, pc));
                    } else {
                        v.push(self.dump(&s2, &Pl { ptr, meta: None, lay: el }, depth + 1)?);
                    }
                }
                if ty.is_str() { J::Str(len, b) } else { J::Seq(len, v) }
            }
            ty::Ref(_, t, _) => {
                let t = *t;
                let q = self.deref(st, p)?;
                let _ = t;
                self.dump(st, &q, depth + 1)?
            }
            ty::RawPtr(..) | ty::FnPtr(..) | ty::FnDef(..) | ty::Never => J::Text(format!("<{ty}>")),
            _ => J::Text(format!("<{ty}>")),
        })
    }
}

fn intern(ext: &mut Ext<'_>, t: Vec<Leaf>) -> u128 {
    if let Some(k) = ext.joint.get(&t) {
        return *k;
    }
    let k = ext.joint_rev.len() as u128;
    ext.joint.insert(t.clone(), k);
    ext.joint_rev.push(t);
    k
}
#[allow(unused)]
fn unused(g: GKind<'_>) {}
