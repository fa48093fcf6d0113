#![feature(rustc_private)]
#![allow(internal_features)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod cfg;
mod hooks;
mod interp;
mod intrinsics;
mod mdd;
mod mem;
mod ops;

use hooks::J;
use interp::{Interp, Pl, State};
use mdd::{Leaf, Node, N};
use rustc_data_structures::fx::FxHashMap;
use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::{Instance, TyCtxt};
use std::fmt::Write;

struct Cb;

extern "C" {
    fn fork() -> i32;
    fn wait(status: *mut i32) -> i32;
    fn _exit(code: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Emit<'a> {
    m: &'a mdd::Mdd,
    ids: FxHashMap<N, usize>,
    rows: Vec<String>,
}
impl<'a> Emit<'a> {
    fn node(&mut self, n: N) -> usize {
        if let Some(i) = self.ids.get(&n) {
            return *i;
        }
        let row = match &self.m.nodes[n as usize] {
            Node::Leaf(l) => match l {
                Leaf::Int(x) => format!("[\"i\",{x}]"),
                Leaf::Ptr { alloc, off } => format!("[\"p\",{alloc},{off}]"),
                Leaf::Undef => "[\"u\"]".into(),
                Leaf::Top => "[\"t\"]".into(),
                Leaf::Range(a, b) => format!("[\"r\",{a},{b}]"),
                Leaf::Sym(a) => format!("[\"s\",{a}]"),
                Leaf::Frag { .. } => "[\"t\"]".to_string(),
            },
            Node::Br { var, ch } => {
                let c: Vec<String> = ch.iter().map(|c| self.node(*c).to_string()).collect();
                format!("[\"b\",{var},[{}]]", c.join(","))
            }
        };
        let i = self.rows.len();
        self.rows.push(row);
        self.ids.insert(n, i);
        i
    }
    fn fields(&mut self, fs: &[(String, J)]) -> String {
        let v: Vec<String> = fs.iter().map(|(k, j)| format!("{}:{}", esc(k), self.j(j))).collect();
        format!("{{{}}}", v.join(","))
    }
    fn j(&mut self, j: &J) -> String {
        match j {
            J::Num(n, k) => format!("{{\"n\":{},\"k\":{}}}", self.node(*n), esc(k)),
            J::Rec(nm, fs) => format!("{{\"s\":{},\"f\":{}}}", esc(nm), self.fields(fs)),
            J::Enum(nm, v, vs) => {
                let x: Vec<String> = vs.iter().map(|(k, fs)| format!("[{},{}]", esc(k), self.fields(fs))).collect();
                format!("{{\"e\":{},\"v\":{},\"vs\":[{}]}}", esc(nm), self.node(*v), x.join(","))
            }
            J::Seq(l, v) => {
                let x: Vec<String> = v.iter().map(|e| self.j(e)).collect();
                format!("{{\"len\":{},\"el\":[{}]}}", self.node(*l), x.join(","))
            }
            J::Str(l, v) => {
                let x: Vec<String> = v.iter().map(|e| self.node(*e).to_string()).collect();
                format!("{{\"len\":{},\"str\":[{}]}}", self.node(*l), x.join(","))
            }
            J::Null => "null".into(),
            J::Text(t) => format!("{{\"t\":{}}}", esc(t)),
        }
    }
}

fn meminfo(file: &str, key: &str) -> u64 {
    let t = std::fs::read_to_string(file).unwrap_or_default();
    t.lines().find_map(|l| l.strip_prefix(key)).and_then(|l| l.split_whitespace().next()?.parse().ok()).unwrap_or(0) / 1024
}

/// ends the analysis of one entry when its time or the memory is used up
fn watch(name: String, out: String, seconds: f64) {
    std::thread::spawn(move || {
        let t0 = std::time::Instant::now();
        let mut stopped = None;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let free = meminfo("/proc/meminfo", "MemAvailable:");
            let why = if t0.elapsed().as_secs_f64() > seconds {
                1
            } else if free < 6000 && meminfo("/proc/self/status", "VmRSS:") > 3000 {
                2
            } else {
                0
            };
            if why > 0 && stopped.is_none() {
                interp::STOP.store(why, std::sync::atomic::Ordering::Relaxed);
                stopped = Some(std::time::Instant::now());
            }
            if let Some(t) = stopped {
                if t.elapsed().as_secs() > 10 || free < 3500 {
                    // a single operation is stuck: what was found so far is lost
                    let s = format!("{{\"entry\":{},\"alive\":false,\"error\":\"time or memory budget exceeded\",\"steps\":0,\"callsites\":0,\"functions\":[],\"checks\":{{}},\"events\":[],\"outs\":[],\"tables\":[],\"vars\":[],\"nodes\":[]}}", esc(&name));
                    std::fs::write(format!("{out}/{name}.json"), s).unwrap();
                    eprintln!("[absint] {name}: ERROR time or memory budget exceeded");
                    unsafe { _exit(0) }
                }
            }
        }
    });
}

fn analyse<'tcx>(tcx: TyCtxt<'tcx>, inst: Instance<'tcx>, name: &str, out: &str) {
    let t0 = std::time::Instant::now();
    let mut it = Interp::new(tcx);
    if let Ok(s) = std::env::var("STA_STEPS") {
        it.max_steps = s.parse().unwrap();
    }
    let mut st = State { mem: Default::default(), pc: it.m.t };
    let ul = it.layout(tcx.types.unit);
    let dst = Pl { ptr: it.m.undef, meta: None, lay: ul };
    let r = it.call_body(&mut st, inst, vec![], &dst);
    let (err, alive) = match r {
        Ok(a) => (None, a),
        Err(e) => (Some(e), false),
    };
    let outs = std::mem::take(&mut it.ext.outs);
    let tables = std::mem::take(&mut it.ext.tables);
    let mut em = Emit { m: &it.m, ids: Default::default(), rows: vec![] };
    let mut s = String::new();
    let _ = write!(s, "{{\"entry\":{},\"alive\":{},\"error\":{},", esc(name), alive, err.as_ref().map_or("null".into(), |e| esc(e)));
    let _ = write!(s, "\"steps\":{},\"forks\":{},\"nodes_total\":{},\"seconds\":{:.2},\"callsites\":{},", it.steps, it.forks, it.m.nodes.len(), t0.elapsed().as_secs_f64(), it.callsites.len());
    let mut fns: Vec<(String, u64, String)> = it.visited.iter().filter(|(d, _)| tcx.crate_name(d.krate).as_str() == "barbarosa").map(|(d, c)| (tcx.def_path_str(*d), *c, hash(tcx, *d))).collect();
    fns.sort();
    let v: Vec<String> = fns.iter().map(|(a, b, h)| format!("[{},{},\"{h}\"]", esc(a), b)).collect();
    let _ = write!(s, "\"functions_total\":{},\"functions\":[{}],", it.visited.len(), v.join(","));
    let mut ck: Vec<_> = it.checks.iter().collect();
    ck.sort();
    let v: Vec<String> = ck.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect();
    let _ = write!(s, "\"checks\":{{{}}},", v.join(","));
    let v: Vec<String> = it
        .events
        .iter()
        .map(|e| {
            let p: Vec<String> = e.path.iter().map(|x| esc(x)).collect();
            format!("{{\"kind\":{},\"msg\":{},\"loc\":{},\"func\":{},\"path\":[{}],\"pc\":{},\"witness\":{}}}", esc(e.kind), esc(&e.msg), esc(&e.loc), esc(&e.func), p.join(","), em.node(e.pc), esc(&e.witness))
        })
        .collect();
    let _ = write!(s, "\"events\":[{}],", v.join(",\n"));
    let v: Vec<String> = outs.iter().map(|o| format!("{{\"tag\":{},\"pc\":{},\"val\":{}}}", esc(&o.tag), em.node(o.pc), em.j(&o.val))).collect();
    let _ = write!(s, "\"outs\":[{}],", v.join(",\n"));
    let mut tv: Vec<String> = tables
        .iter()
        .map(|((c, t), tb)| {
            let d: Vec<String> = tb.decoded.iter().map(|j| em.j(j)).collect();
            format!("[{},{},[{}]]", esc(&format!("{c}")), esc(&format!("{t}")), d.join(","))
        })
        .collect();
    tv.sort();
    let _ = write!(s, "\"tables\":[{}],", tv.join(",\n"));
    let v: Vec<String> = it
        .m
        .vars
        .iter()
        .enumerate()
        .map(|(i, vi)| {
            let nm = it.names.get(&(i as u32)).map_or("null".into(), |n| format!("[{}]", n.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")));
            format!("[{},{},{}]", esc(&vi.name), vi.dom, nm)
        })
        .collect();
    let _ = write!(s, "\"vars\":[{}],", v.join(","));
    let _ = write!(s, "\"nodes\":[{}]}}", em.rows.join(",\n"));
    let f = format!("{out}/{name}.json");
    std::fs::write(&f, s).unwrap();
    eprintln!("[absint] {name}: steps={} forks={} nodes={} events={} t={:.1}s mem={}M{}", it.steps, it.forks, it.m.nodes.len(), it.events.len(), t0.elapsed().as_secs_f64(), meminfo("/proc/self/status", "VmHWM:"), err.map_or(String::new(), |e| format!(" ERROR {e}")));
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("STA_OUT").unwrap_or_else(|_| ".".into());
        let want = std::env::var("STA_ENTRIES").unwrap_or_default();
        let want: Vec<&str> = want.split(',').filter(|s| !s.is_empty()).collect();
        let mut sel_entries = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn) {
                continue;
            }
            let nm = tcx.item_name(d).to_string();
            if !nm.starts_with("entry_") || tcx.generics_of(d).count() != 0 {
                continue;
            }
            let short = nm.trim_start_matches("entry_").to_string();
            let sel = want.iter().position(|w| if let Some(p) = w.strip_suffix('*') { short.starts_with(p) } else { short == *w });
            let Some(k) = sel else { continue };
            sel_entries.push((k, d, short));
        }
        sel_entries.sort_by_key(|x| x.0);
        // one process per entry: the analyses are independent and only read the compiler's state
        let n = sel_entries.len();
        let jobs: usize = std::env::var("STA_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(6);
        let number = |k: &str, d: f64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
        let (each, limit) = (number("STA_EACH", 1e9), number("STA_LIMIT", 1e9));
        let began = std::time::Instant::now();
        let mut running = 0;
        for (_, d, short) in sel_entries {
            let inst = Instance::mono(tcx, d);
            if jobs <= 1 {
                analyse(tcx, inst, &short, &out);
                continue;
            }
            if running == jobs {
                unsafe { wait(std::ptr::null_mut()) };
                running -= 1;
            }
            match unsafe { fork() } {
                0 => {
                    watch(short.clone(), out.clone(), (limit - began.elapsed().as_secs_f64()).clamp(5.0, each));
                    analyse(tcx, inst, &short, &out);
                    unsafe { _exit(0) }
                }
                -1 => analyse(tcx, inst, &short, &out),
                _ => running += 1,
            }
        }
        while running > 0 {
            unsafe { wait(std::ptr::null_mut()) };
            running -= 1;
        }
        eprintln!("[absint] entries analysed: {n}");
        Compilation::Stop
    }
}

fn hash(tcx: TyCtxt<'_>, d: rustc_hir::def_id::DefId) -> String {
    format!("{:?}", tcx.def_path_hash(d).0)
}

fn assertion(msg: &rustc_middle::mir::AssertMessage<'_>) -> String {
    use rustc_middle::mir::AssertKind::*;
    match msg {
        BoundsCheck { .. } => "index out of bounds".into(),
        Overflow(op, ..) => format!("overflow in {op:?}"),
        OverflowNeg(_) => "overflow in Neg".into(),
        DivisionByZero(_) => "division by zero".into(),
        RemainderByZero(_) => "remainder of division by zero".into(),
        _ => "other".into(),
    }
}

/// where a body can panic, and where it does what the compiler does not check
fn sites<'tcx>(tcx: TyCtxt<'tcx>, d: rustc_hir::def_id::LocalDefId) -> Vec<(&'static str, String, String)> {
    use rustc_middle::mir::*;
    let mut v = vec![];
    let body = tcx.optimized_mir(d);
    let at = |s: rustc_span::Span| tcx.sess.source_map().span_to_diagnostic_string(s.source_callsite());
    for bb in body.basic_blocks.iter() {
        for st in &bb.statements {
            let StatementKind::Assign(a) = &st.kind else { continue };
            if let Rvalue::Cast(CastKind::Transmute, _, _) = &a.1 {
                v.push(("unsafe", "transmute".into(), at(st.source_info.span)));
            }
            let mut places = vec![a.0];
            if let Rvalue::Use(Operand::Copy(p) | Operand::Move(p), ..) | Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) = &a.1 {
                places.push(*p);
            }
            for p in places {
                for (base, e) in p.iter_projections() {
                    if matches!(e, ProjectionElem::Deref) && base.ty(&body.local_decls, tcx).ty.is_raw_ptr() {
                        v.push(("unsafe", "raw pointer".into(), at(st.source_info.span)));
                    }
                }
            }
        }
        let t = bb.terminator();
        match &t.kind {
            TerminatorKind::Assert { msg, .. } => v.push(("panic", assertion(msg), at(t.source_info.span))),
            TerminatorKind::Call { func, .. } => {
                let ty = func.ty(&body.local_decls, tcx);
                let rustc_middle::ty::FnDef(f, _) = ty.kind() else { continue };
                let name = tcx.def_path_str(*f);
                let sig = tcx.fn_sig(*f).skip_binder();
                if sig.output().skip_binder().is_never() || ["unwrap", "expect", "index", "index_mut"].iter().any(|x| name.ends_with(&format!("::{x}"))) {
                    v.push(("panic", name, at(t.source_info.span)));
                } else if !sig.safety().is_safe() {
                    v.push(("unsafe", name, at(t.source_info.span)));
                }
            }
            _ => {}
        }
    }
    v
}

/// lists the functions of the crate under analysis
struct Inventory(String);
impl Callbacks for Inventory {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut rows = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            use rustc_hir::def::DefKind::*;
            if !matches!(tcx.def_kind(d), Fn | AssocFn | Closure) {
                continue;
            }
            let v: Vec<String> = sites(tcx, *ld).iter().map(|(k, w, l)| format!("[\"{k}\",{},{}]", esc(w), esc(l))).collect();
            rows.push(format!("[{},\"{}\",[{}]]", esc(&tcx.def_path_str(d)), hash(tcx, d), v.join(",")));
        }
        rows.sort();
        std::fs::write(&self.0, format!("[{}]", rows.join(",\n"))).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc
    args.remove(0);
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let target = args.iter().any(|a| a == "--target" || a.starts_with("--target="));
    if target {
        args.push("--sysroot".into());
        args.push(std::env::var("STA_SYSROOT").expect("STA_SYSROOT"));
        args.push("-Zalways-encode-mir".into());
        if std::env::var("STA_CFG").is_ok() {
            args.push("--cfg=barbarosa_verif".into());
        }
        args.push("-Zmir-opt-level=0".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Coverflow-checks=on".into());
    }
    if target && crate_name == "harness" {
        let h = std::thread::Builder::new().stack_size(16 << 30).spawn(move || {
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
        });
        let code = h.unwrap().join().unwrap();
        std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    }
    if target && crate_name == "barbarosa" {
        if let Ok(f) = std::env::var("STA_INVENTORY") {
            let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Inventory(f)));
            std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
        }
    }
    let real = args.remove(0);
    let e = std::process::Command::new(real).args(&args).status().unwrap();
    std::process::exit(e.code().unwrap_or(1));
}
