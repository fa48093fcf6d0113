//! Transfer functions of compiler intrinsics.
use crate::hooks::Out;
use crate::interp::{GKind, Interp, Pl, State, Val, R};
use crate::mdd::{Leaf, N};
use crate::mem::mask;
use crate::ops;
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{self, Instance, Ty};

fn done(alive: bool) -> R<Out> {
    Ok(Out::Done(alive))
}

pub fn size_align_of_val<'tcx>(it: &mut Interp<'tcx>, t: Ty<'tcx>, v: &Val<'tcx>) -> R<(N, N)> {
    let lay = it.layout(t);
    if lay.is_sized() {
        return Ok((it.m.int(lay.size.bytes() as u128), it.m.int(lay.align.abi.bytes() as u128)));
    }
    match t.kind() {
        ty::Slice(_) | ty::Str => {
            let es = match t.kind() {
                ty::Slice(e) => it.layout(*e).size.bytes(),
                _ => 1,
            };
            let meta = it.part(v, 8, 8);
            let e = it.m.int(es as u128);
            let s = it.int_bin(BinOp::Mul, 8, false, meta, e);
            let a = it.m.int(lay.align.abi.bytes() as u128);
            Ok((s, a))
        }
        ty::Dynamic(..) => {
            let meta = it.part(v, 8, 8);
            let ls = it.m.leaves(meta);
            let mut acc: Option<(N, N)> = None;
            for &l in ls.iter() {
                let Some(Leaf::Ptr { alloc, .. }) = it.m.as_leaf(l) else { continue };
                let Some(GKind::VTable(vt)) = it.gkind(alloc).cloned() else { continue };
                let vl = it.layout(vt);
                let (s, a) = (it.m.int(vl.size.bytes() as u128), it.m.int(vl.align.abi.bytes() as u128));
                acc = Some(match acc {
                    None => (s, a),
                    Some((x, y)) => {
                        let c = it.m.is_leaf_eq(meta, l);
                        (it.m.ite(c, s, x), it.m.ite(c, a, y))
                    }
                });
            }
            acc.ok_or_else(|| "size_of_val dyn".to_string())
        }
        ty::Adt(..) => {
            // struct with unsized tail
            let n = lay.fields.count();
            let fl = lay.field(&it.cx, n - 1);
            let off = lay.fields.offset(n - 1).bytes();
            let (s, a) = size_align_of_val(it, fl.ty, v)?;
            match (it.m.as_int(s), it.m.as_int(a)) {
                (Some(s), Some(a)) => {
                    let al = (lay.align.abi.bytes() as u128).max(a);
                    let start = (off as u128 + a - 1) / a * a;
                    let tot = (start + s + al - 1) / al * al;
                    Ok((it.m.int(tot), it.m.int(al)))
                }
                _ => it.abort("symbolic size of unsized struct"),
            }
        }
        _ => it.abort(format!("size_of_val {t}")),
    }
}

pub fn run<'tcx>(it: &mut Interp<'tcx>, name: &str, st: &mut State, inst: Instance<'tcx>, args: &[Val<'tcx>], dst: &Pl<'tcx>) -> R<Out> {
    let targ = |i: usize| inst.args.types().nth(i);
    macro_rules! ret {
        ($n:expr) => {{
            let n = $n;
            it.store_scalar(st, dst, n)?;
            return done(true);
        }};
    }
    macro_rules! int {
        ($n:expr) => {{
            let n = it.m.int($n as u128);
            ret!(n)
        }};
    }
    macro_rules! bin {
        ($op:expr) => {{
            let (x, y) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let sz = args[0].lay.size.bytes() as u32;
            let sg = matches!(args[0].lay.ty.kind(), ty::Int(_));
            let n = it.int_bin($op, sz, sg, x, y);
            ret!(n)
        }};
    }
    macro_rules! map1 {
        ($f:expr) => {{
            let x = it.scalar(&args[0]);
            let f = $f;
            let n = it.m.map1(x, &mut |m, l| match l {
                Leaf::Int(v) => m.int(f(v)),
                Leaf::Undef => m.undef,
                _ => m.top,
            });
            ret!(n)
        }};
    }
    match name {
        "size_of" => {
            let l = it.layout(targ(0).unwrap());
            int!(l.size.bytes())
        }
        "align_of" | "min_align_of" => {
            let l = it.layout(targ(0).unwrap());
            int!(l.align.abi.bytes())
        }
        "size_of_val" => {
            let (s, _) = size_align_of_val(it, targ(0).unwrap(), &args[0])?;
            ret!(s)
        }
        "align_of_val" | "min_align_of_val" => {
            let (_, a) = size_align_of_val(it, targ(0).unwrap(), &args[0])?;
            ret!(a)
        }
        "vtable_size" | "vtable_align" => {
            let p = it.scalar(&args[0]);
            let Some(Leaf::Ptr { alloc, .. }) = it.m.as_leaf(p) else { return it.abort("vtable_size") };
            let Some(GKind::VTable(t)) = it.gkind(alloc).cloned() else { return it.abort("vtable_size") };
            let l = it.layout(t);
            int!(if name == "vtable_size" { l.size.bytes() } else { l.align.abi.bytes() })
        }
        "needs_drop" => {
            let b = targ(0).unwrap().needs_drop(it.tcx, it.te);
            int!(b as u8)
        }
        "variant_count" => {
            let n = match targ(0).unwrap().kind() {
                ty::Adt(a, _) => a.variants().len(),
                _ => 0,
            };
            int!(n)
        }
        "type_id_eq" => {
            let mut acc = it.m.t;
            for k in 0..2 {
                let (a, b) = (it.part(&args[0], k * 8, 8), it.part(&args[1], k * 8, 8));
                let (Some(x), Some(y)) = (it.m.as_leaf(a), it.m.as_leaf(b)) else { return it.abort("type_id_eq") };
                let ty = |it: &Interp<'tcx>, l: &Leaf| match l {
                    Leaf::Ptr { alloc, .. } => match it.gkind(*alloc) {
                        Some(GKind::TypeId(t)) => Some(*t),
                        _ => None,
                    },
                    _ => None,
                };
                match (ty(it, &x), ty(it, &y)) {
                    (Some(t), Some(u)) if t == u => {}
                    (Some(_), Some(_)) => acc = it.m.f,
                    // what is not a pointer is the rest of the hash
                    (None, None) if k > 0 => {}
                    _ => return it.abort("type_id_eq"),
                }
            }
            ret!(acc)
        }
        "type_id" | "type_name" => {
            // evaluated at compile time normally; give opaque but unique result through const evaluation of the intrinsic body
            return it.abort(format!("intrinsic {name} at run time"));
        }
        "caller_location" => {
            // never inspected by the analysed code
            let id = it.new_alloc(st, 24, 8, true);
            let p = it.ptr(id, 0);
            ret!(p)
        }
        "offset" => {
            let t = args[0].lay.ty.builtin_deref(true).unwrap();
            let sz = it.layout(t).size.bytes();
            let (p, i) = (it.part(&args[0], 0, 8), it.scalar(&args[1]));
            let n = it.ptr_add_scaled(p, i, sz);
            ret!(n)
        }
        "arith_offset" => {
            let sz = it.layout(targ(0).unwrap()).size.bytes();
            let (p, i) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let n = it.ptr_add_scaled(p, i, sz);
            ret!(n)
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let sz = it.layout(targ(0).unwrap()).size.bytes() as i64;
            let (p, q) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let code = 0x9100_0000u64 | sz as u64;
            let n = it.m.map2_cached(code, p, q, &mut |m, a, b| match (a, b) {
                (Leaf::Ptr { alloc: x, off: o }, Leaf::Ptr { alloc: y, off: r }) if x == y => m.int(((o - r) / sz) as u64 as u128),
                (Leaf::Int(x), Leaf::Int(y)) => m.int((x.wrapping_sub(y) as u64 as i64 / sz) as u64 as u128),
                (Leaf::Undef, _) | (_, Leaf::Undef) => m.undef,
                _ => m.top,
            });
            ret!(n)
        }
        "ptr_guaranteed_cmp" => {
            let (p, q) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let n = it.int_bin(BinOp::Eq, 8, false, p, q);
            ret!(n)
        }
        "ptr_mask" => {
            return it.abort("ptr_mask");
        }
        "slice_get_unchecked" => {
            let t = dst.lay.ty.builtin_deref(true).unwrap();
            let sz = it.layout(t).size.bytes();
            let (p, i) = (it.part(&args[0], 0, 8), it.scalar(&args[1]));
            let n = it.ptr_add_scaled(p, i, sz);
            ret!(n)
        }
        "copy" | "copy_nonoverlapping" | "volatile_copy_memory" | "volatile_copy_nonoverlapping_memory" => {
            let sz = it.layout(targ(0).unwrap()).size.bytes();
            let (s, d) = if name.starts_with("volatile") { (1, 0) } else { (0, 1) };
            let (s, d, c) = (it.scalar(&args[s]), it.scalar(&args[d]), it.scalar(&args[2]));
            let alive = it.mem_copy(st, s, d, c, sz)?;
            return done(alive);
        }
        "write_bytes" | "volatile_set_memory" => {
            let sz = it.layout(targ(0).unwrap()).size.bytes();
            let (p, v, c) = (it.scalar(&args[0]), it.scalar(&args[1]), it.scalar(&args[2]));
            let alive = it.fork_on(st, c, &mut |it, st, l| {
                let Leaf::Int(c) = l else { return it.abort("write_bytes with unknown length") };
                let n = c as u64 * sz;
                if n == 0 {
                    return Ok(true);
                }
                let mut cells = vec![];
                if let Some(b) = it.m.as_int(v) {
                    let mut o = 0;
                    while o < n {
                        let s = 8.min(n - o) as u32;
                        let mut w = 0u128;
                        for k in 0..s {
                            w |= b << (8 * k);
                        }
                        cells.push(crate::mem::Cell { off: o, size: s, v: it.m.int(w) });
                        o += s as u64;
                    }
                } else {
                    for o in 0..n {
                        cells.push(crate::mem::Cell { off: o, size: 1, v });
                    }
                }
                it.write_region(st, p, n, &cells)?;
                Ok(true)
            })?;
            return done(alive);
        }
        "compare_bytes" => {
            let (a, b, c) = (it.scalar(&args[0]), it.scalar(&args[1]), it.scalar(&args[2]));
            let d = *dst;
            let alive = it.fork_on(st, c, &mut |it, st, l| {
                let Leaf::Int(c) = l else { return it.abort("memcmp with unknown length") };
                let mut acc = it.m.int(0);
                for i in (0..c as i64).rev() {
                    let (p, q) = (it.ptr_add(a, i), it.ptr_add(b, i));
                    let (x, y) = (it.read(st, p, 1)?, it.read(st, q, 1)?);
                    let eq = it.int_bin(BinOp::Eq, 1, false, x, y);
                    let lt = it.int_bin(BinOp::Lt, 1, false, x, y);
                    let (neg, pos) = (it.m.int(mask(4)), it.m.int(1));
                    let diff = it.m.ite(lt, neg, pos);
                    acc = it.m.ite(eq, acc, diff);
                }
                it.store_scalar(st, &d, acc)?;
                Ok(true)
            })?;
            return done(alive);
        }
        "raw_eq" => {
            let sz = it.layout(targ(0).unwrap()).size.bytes();
            let (a, b) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let mut acc = it.m.t;
            for i in 0..sz as i64 {
                let (p, q) = (it.ptr_add(a, i), it.ptr_add(b, i));
                let (x, y) = (it.read(st, p, 1)?, it.read(st, q, 1)?);
                let eq = it.int_bin(BinOp::Eq, 1, false, x, y);
                acc = it.m.and(acc, eq);
            }
            ret!(acc)
        }
        "typed_swap_nonoverlapping" => {
            let sz = it.layout(targ(0).unwrap()).size.bytes();
            let (a, b) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let x = it.read_region(st, a, sz)?;
            let y = it.read_region(st, b, sz)?;
            it.write_region(st, a, sz, &y)?;
            it.write_region(st, b, sz, &x)?;
            return done(true);
        }
        "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
            let p = it.val_deref(&args[0])?;
            let v = it.load(st, &p)?;
            it.store(st, dst, &v)?;
            return done(true);
        }
        "write_via_move" | "volatile_store" | "unaligned_volatile_store" => {
            let p = it.val_deref(&args[0])?;
            it.store(st, &p, &args[1])?;
            return done(true);
        }
        "transmute" | "transmute_unchecked" | "black_box" => {
            let v = Val { lay: dst.lay, cells: args[0].cells.clone() };
            it.store(st, dst, &v)?;
            return done(true);
        }
        "aggregate_raw_ptr" => {
            let p = it.part(&args[0], 0, 8);
            it.write(st, dst.ptr, 8, p)?;
            if dst.lay.size.bytes() == 16 {
                let m = it.scalar(&args[1]);
                let q = it.ptr_add(dst.ptr, 8);
                it.write(st, q, 8, m)?;
            }
            return done(true);
        }
        "ptr_metadata" => {
            if args[0].lay.size.bytes() == 16 {
                let n = it.part(&args[0], 8, 8);
                ret!(n)
            }
            return done(true);
        }
        "discriminant_value" => {
            let p = it.val_deref(&args[0])?;
            let n = it.discriminant(st, &p)?;
            ret!(n)
        }
        "forget" | "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "prefetch_read_data"
        | "atomic_fence" | "atomic_singlethreadfence" | "codeview_annotation" => return done(true),
        "assume" => return done(true),
        "likely" | "unlikely" => {
            let n = it.scalar(&args[0]);
            ret!(n)
        }
        "abort" | "abort_immediate" => {
            it.event(st, "panic", "abort".into());
            return done(false);
        }
        "unreachable" => {
            it.event(st, "ub", "unreachable code reached".into());
            return done(false);
        }
        "ub_checks" => int!(0),
        "overflow_checks" => int!(1),
        "contract_checks" => int!(0),
        "is_val_statically_known" => int!(0),
        "select_unpredictable" => {
            let c = it.scalar(&args[0]);
            let cells = crate::mem::merge_cells(&mut it.m, c, &args[1].cells, false, &args[2].cells, false);
            it.store(st, dst, &Val { lay: dst.lay, cells })?;
            return done(true);
        }
        "const_eval_select" => {
            // (args_tuple, const_fn, runtime_fn): take the run-time branch
            let f = args[2].clone();
            let tup = args[0].clone();
            let ty::FnDef(d, ga) = *f.lay.ty.kind() else {
                // closure: call through FnOnce
                return it.abort(format!("const_eval_select with {}", f.lay.ty));
            };
            let ga = ga.no_bound_vars().unwrap();
            let i2 = Instance::expect_resolve(it.tcx, it.te, d, ga, rustc_span::DUMMY_SP);
            let n = tup.lay.fields.count();
            let mut av = vec![];
            for i in 0..n {
                let fl = tup.lay.field(&it.cx, i);
                let off = tup.lay.fields.offset(i).bytes();
                let cells = crate::interp::sub_cells(&mut it.m, &tup.cells, off, fl.size.bytes());
                av.push(Val { lay: fl, cells });
            }
            let div = dst.lay.ty.is_never();
            let alive = it.call(st, i2, av, dst, div)?;
            return done(alive);
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let (x, y) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let sz = args[0].lay.size.bytes() as u32;
            let sg = matches!(args[0].lay.ty.kind(), ty::Int(_));
            let op = match name {
                "add_with_overflow" => BinOp::Add,
                "sub_with_overflow" => BinOp::Sub,
                _ => BinOp::Mul,
            };
            let v = it.int_bin(op, sz, sg, x, y);
            let code = 0x6000_0000u64 | ((op as u64) << 8) | ((sz as u64) << 1) | sg as u64;
            let o = it.m.map2_cached(code, x, y, &mut |m, x, y| {
                let l = ops::overflows(op, sz, sg, x, y);
                m.leaf(l)
            });
            let (a, b) = (it.field(dst, 0)?, it.field(dst, 1)?);
            it.write(st, a.ptr, sz, v)?;
            it.write(st, b.ptr, 1, o)?;
            return done(true);
        }
        "wrapping_add" | "unchecked_add" => bin!(BinOp::Add),
        "wrapping_sub" | "unchecked_sub" => bin!(BinOp::Sub),
        "wrapping_mul" | "unchecked_mul" => bin!(BinOp::Mul),
        "unchecked_div" | "exact_div" => bin!(BinOp::Div),
        "unchecked_rem" => bin!(BinOp::Rem),
        "unchecked_shl" => bin!(BinOp::Shl),
        "unchecked_shr" => bin!(BinOp::Shr),
        "disjoint_bitor" => bin!(BinOp::BitOr),
        "three_way_compare" => bin!(BinOp::Cmp),
        "integer_min" | "integer_max" => {
            let (x, y) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let sz = args[0].lay.size.bytes() as u32;
            let sg = matches!(args[0].lay.ty.kind(), ty::Int(_));
            let c = it.int_bin(BinOp::Lt, sz, sg, x, y);
            let n = if name == "integer_min" { it.m.ite(c, x, y) } else { it.m.ite(c, y, x) };
            ret!(n)
        }
        "saturating_add" | "saturating_sub" => {
            let (x, y) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let sz = args[0].lay.size.bytes() as u32;
            let sg = matches!(args[0].lay.ty.kind(), ty::Int(_));
            let add = name == "saturating_add";
            let code = 0x9200_0000u64 | ((add as u64) << 9) | ((sg as u64) << 8) | sz as u64;
            let n = it.m.map2_cached(code, x, y, &mut |m, a, b| {
                let (Leaf::Int(a), Leaf::Int(b)) = (a, b) else {
                    return if a == Leaf::Undef || b == Leaf::Undef { m.undef } else { m.top };
                };
                let r = if sg {
                    let (a, b) = (ops::sext(a, sz), ops::sext(b, sz));
                    let (mn, mx) = (-(1i128 << (sz * 8 - 1)), (1i128 << (sz * 8 - 1)) - 1);
                    (if add { a + b } else { a - b }).clamp(mn, mx) as u128 & mask(sz)
                } else if add {
                    (a + b).min(mask(sz))
                } else {
                    a.saturating_sub(b)
                };
                m.int(r)
            });
            ret!(n)
        }
        "rotate_left" | "rotate_right" => {
            let (x, y) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let sz = args[0].lay.size.bytes() as u32;
            let left = name == "rotate_left";
            let code = 0x9300_0000u64 | ((left as u64) << 8) | sz as u64;
            let n = it.m.map2_cached(code, x, y, &mut |m, a, b| match (a, b) {
                (Leaf::Int(a), Leaf::Int(b)) => {
                    let bits = sz * 8;
                    let k = (b as u32) % bits;
                    let k = if left { k } else { (bits - k) % bits };
                    let v = if k == 0 { a } else { (a << k) | (a >> (bits - k)) };
                    m.int(v & mask(sz))
                }
                (Leaf::Undef, _) | (_, Leaf::Undef) => m.undef,
                _ => m.top,
            });
            ret!(n)
        }
        "ctpop" => map1!(|v: u128| v.count_ones() as u128),
        "ctlz" | "ctlz_nonzero" => {
            let bits = args[0].lay.size.bits() as u32;
            map1!(|v: u128| (v.leading_zeros() - (128 - bits)) as u128)
        }
        "cttz" | "cttz_nonzero" => {
            let bits = args[0].lay.size.bits() as u32;
            map1!(|v: u128| v.trailing_zeros().min(bits) as u128)
        }
        "bswap" => {
            let sz = args[0].lay.size.bytes() as u32;
            map1!(|v: u128| v.swap_bytes() >> (128 - sz * 8))
        }
        "bitreverse" => {
            let sz = args[0].lay.size.bytes() as u32;
            map1!(|v: u128| v.reverse_bits() >> (128 - sz * 8))
        }
        "fabs" | "sqrt" | "floor" | "ceil" | "trunc" | "round" | "round_ties_even" => {
            let bits = args[0].lay.size.bits() as u32;
            let nm = name.to_string();
            map1!(move |v: u128| {
                if bits == 32 {
                    let x = f32::from_bits(v as u32);
                    (match nm.as_str() {
                        "fabs" => x.abs(),
                        "sqrt" => x.sqrt(),
                        "floor" => x.floor(),
                        "ceil" => x.ceil(),
                        "trunc" => x.trunc(),
                        "round" => x.round(),
                        _ => x.round_ties_even(),
                    })
                    .to_bits() as u128
                } else {
                    let x = f64::from_bits(v as u64);
                    (match nm.as_str() {
                        "fabs" => x.abs(),
                        "sqrt" => x.sqrt(),
                        "floor" => x.floor(),
                        "ceil" => x.ceil(),
                        "trunc" => x.trunc(),
                        "round" => x.round(),
                        _ => x.round_ties_even(),
                    })
                    .to_bits() as u128
                }
            })
        }
        "minnumf32" | "maxnumf32" | "minnumf64" | "maxnumf64" | "minimum_number_nsz" | "maximum_number_nsz" => {
            let bits = args[0].lay.size.bits() as u32;
            let (x, y) = (it.scalar(&args[0]), it.scalar(&args[1]));
            let c = it.m.map2_cached(0x9400_0000 | bits as u64, x, y, &mut |m, a, b| {
                let l = ops::float_bin(BinOp::Lt, bits, a, b);
                m.leaf(l)
            });
            let n = if name.starts_with("min") { it.m.ite(c, x, y) } else { it.m.ite(c, y, x) };
            ret!(n)
        }
        "catch_unwind" => return it.abort("catch_unwind"),
        _ => {}
    }
    if let Some(a) = name.strip_prefix("atomic_") {
        let p = it.scalar(&args[0]);
        let sz = if a.starts_with("store") { args[1].lay.size.bytes() as u32 } else { 0 };
        match a {
            "load" => {
                let v = it.read(st, p, dst.lay.size.bytes() as u32)?;
                ret!(v)
            }
            "store" => {
                let v = it.scalar(&args[1]);
                it.write(st, p, sz, v)?;
                return done(true);
            }
            "xchg" | "xadd" | "xsub" | "and" | "or" | "xor" => {
                let sz = dst.lay.size.bytes() as u32;
                let old = it.read(st, p, sz)?;
                let v = it.scalar(&args[1]);
                let new = match a {
                    "xchg" => v,
                    "xadd" => it.int_bin(BinOp::Add, sz, false, old, v),
                    "xsub" => it.int_bin(BinOp::Sub, sz, false, old, v),
                    "and" => it.int_bin(BinOp::BitAnd, sz, false, old, v),
                    "or" => it.int_bin(BinOp::BitOr, sz, false, old, v),
                    _ => it.int_bin(BinOp::BitXor, sz, false, old, v),
                };
                it.write(st, p, sz, new)?;
                ret!(old)
            }
            "cxchg" | "cxchgweak" => {
                let sz = args[1].lay.size.bytes() as u32;
                let old = it.read(st, p, sz)?;
                let (e, n) = (it.scalar(&args[1]), it.scalar(&args[2]));
                let c = it.int_bin(BinOp::Eq, sz, false, old, e);
                let v = it.m.ite(c, n, old);
                it.write(st, p, sz, v)?;
                let (f0, f1) = (it.field(dst, 0)?, it.field(dst, 1)?);
                it.write(st, f0.ptr, sz, old)?;
                it.write(st, f1.ptr, 1, c)?;
                return done(true);
            }
            _ => {}
        }
    }
    if !it.tcx.intrinsic(inst.def_id()).map_or(true, |i| i.must_be_overridden) {
        return Ok(Out::Continue);
    }
    it.abort(format!("intrinsic {name} not modelled"))
}
