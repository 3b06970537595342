//! MIR dumper: a rustc driver that, for the crates named in VDRV_CRATES, writes the monomorphic
//! MIR of everything reachable from the crate's own functions to $VDRV_OUT/<crate>.json.
//! For every other crate it behaves exactly like rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArg, GenericArgKind, Instance, InstanceKind, Ty, TyCtxt, TypingEnv, Unnormalized};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

struct J {
    s: String,
}
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<Instance<'tcx>>,
    built: HashMap<DefId, Body<'tcx>>,
    stop: Vec<String>,
}

impl<'tcx> Dump<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, t: T) -> T {
        self.tcx
            .try_normalize_erasing_regions(self.env, Unnormalized::new_wip(t.clone()))
            .unwrap_or(t)
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}"));
        let mut extra = String::new();
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                extra.push_str(",\"k\":\"prim\"")
            }
            ty::Adt(def, args) => {
                let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = self.norm(f.ty(self.tcx, args).skip_norm_wip());
                        let fi = self.ty(fty);
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), fi));
                    }
                    let d = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(v.name.as_str()), esc(&d), arr(fs)));
                }
                let mut a = vec![];
                for g in args.iter() {
                    if let Some(x) = g.as_type() {
                        a.push(self.ty(x).to_string())
                    }
                }
                let _ = write!(extra, ",\"k\":{},\"adt\":{},\"v\":{},\"a\":{}", esc(k), esc(&self.key(def.did())), arr(vs), arr(a));
            }
            ty::Ref(_, x, m) => {
                let x = self.ty(x);
                let _ = write!(extra, ",\"k\":\"ref\",\"to\":{},\"mut\":{}", x, m.is_mut());
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(x);
                let _ = write!(extra, ",\"k\":\"ptr\",\"to\":{},\"mut\":{}", x, m.is_mut());
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(extra, ",\"k\":\"tuple\",\"a\":{}", arr(v));
            }
            ty::Array(x, n) => {
                let x = self.ty(x);
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                let _ = write!(extra, ",\"k\":\"array\",\"to\":{},\"n\":{}", x, n);
            }
            ty::Slice(x) => {
                let x = self.ty(x);
                let _ = write!(extra, ",\"k\":\"slice\",\"to\":{}", x);
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let kind = format!("{:?}", args.as_closure().kind());
                let inst = Instance::new_raw(d, args);
                let id = self.inst(inst);
                let _ = write!(extra, ",\"k\":\"closure\",\"def\":{},\"a\":{},\"ck\":{},\"inst\":{}", esc(&self.key(d)), arr(ups), esc(&kind), id);
            }
            ty::Coroutine(d, args) => {
                let ups: Vec<String> = args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let inst = Instance::new_raw(d, args);
                let id = self.inst(inst);
                let _ = write!(extra, ",\"k\":\"coroutine\",\"def\":{},\"a\":{},\"inst\":{}", esc(&self.key(d)), arr(ups), id);
            }
            ty::FnDef(d, args) => {
                let r = self.resolve(d, args.skip_binder());
                let _ = write!(extra, ",\"k\":\"fndef\",\"fn\":{}", r);
            }
            _ => {
                let _ = write!(extra, ",\"k\":\"other\"");
            }
        }
        self.type_json[i] = format!("{{\"name\":{}{}}}", esc(&name), extra);
        i
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&x) = self.insts.get(&i) {
            return x;
        }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.queue.push_back(i);
        n
    }

    fn args_json(&mut self, args: &[GenericArg<'tcx>]) -> String {
        let mut v = vec![];
        for g in args {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                GenericArgKind::Const(c) => v.push(esc(&format!("{c}"))),
                _ => {}
            }
        }
        arr(v)
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let args = self.norm(args);
        let tcx = self.tcx;
        let env = self.env;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, d, args)));
        let decl = self.key(d);
        let path = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
        match r {
            Ok(Ok(Some(i))) => {
                let id = self.inst(i);
                format!("{{\"decl\":{},\"path\":{},\"inst\":{}}}", esc(&decl), esc(&path), id)
            }
            _ => {
                let a = self.args_json(args);
                format!("{{\"decl\":{},\"path\":{},\"args\":{}}}", esc(&decl), esc(&path), a)
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "{\"o\":\"deep\"}".into();
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sc = match v {
                    ConstValue::Scalar(Scalar::Int(s)) => Some(s),
                    ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(a) => {
                            let size = tcx.layout_of(self.env.as_query_input(t)).map(|l| l.size);
                            size.ok().and_then(|size| {
                                a.inner()
                                    .read_scalar(&tcx, rustc_middle::mir::interpret::AllocRange { start: offset, size }, false)
                                    .ok()
                                    .and_then(|s| s.try_to_scalar_int().ok())
                            })
                        }
                        _ => None,
                    },
                    _ => None,
                };
                match sc {
                    Some(s) => {
                        let size = s.size();
                        let bits = s.to_bits(size);
                        let st = if matches!(t.kind(), ty::Int(_)) {
                            size.sign_extend(bits).to_string()
                        } else {
                            bits.to_string()
                        };
                        format!("{{\"i\":{}}}", esc(&st))
                    }
                    None => "{\"o\":\"scalar?\"}".into(),
                }
            }
            ty::FnDef(d, args) => {
                let r = self.resolve(*d, args.skip_binder());
                format!("{{\"fn\":{}}}", r)
            }
            ty::Adt(def, _) if def.is_union() => "{\"o\":\"union\"}".into(),
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).unwrap_or(9999) > 512 {
                        return "{\"o\":\"bigarray\"}".into();
                    }
                }
                if matches!(t.kind(), ty::Adt(d, _) if d.variants().is_empty()) {
                    return "{\"o\":\"never\"}".into();
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let vi = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                        let fs: Vec<String> = d
                            .fields
                            .iter()
                            .map(|(fv, ft)| {
                                let ti = self.ty(*ft);
                                let c = self.cval(*fv, *ft, depth + 1);
                                format!("[{},{}]", ti, c)
                            })
                            .collect();
                        format!("{{\"v\":{},\"f\":{}}}", vi, arr(fs))
                    }
                    None => "{\"o\":\"adt?\"}".into(),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if inner.is_str() {
                    if let ConstValue::Slice { alloc_id, meta } = v {
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                            return format!("{{\"s\":{}}}", esc(&String::from_utf8_lossy(b)));
                        }
                    }
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!("{{\"s\":{}}}", esc(&String::from_utf8_lossy(b)));
                    }
                    return "{\"o\":\"str\"}".into();
                }
                if let ty::Slice(el) = inner.kind() {
                    if *el == tcx.types.u8 {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let bs: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            return format!("{{\"b\":{}}}", arr(bs));
                        }
                    }
                    return "{\"o\":\"slice\"}".into();
                }
                let ptr = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                    ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(a) => a
                            .inner()
                            .read_scalar(
                                &tcx,
                                rustc_middle::mir::interpret::AllocRange { start: offset, size: tcx.data_layout.pointer_size() },
                                true,
                            )
                            .ok()
                            .and_then(|s| match s {
                                Scalar::Ptr(p, _) => Some(p),
                                _ => None,
                            }),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(p) = ptr {
                    let (prov, off) = p.into_raw_parts();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Static(d) => return format!("{{\"static\":{}}}", esc(&self.key(d))),
                        GlobalAlloc::Memory(_) => {
                            let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                            let inner = *inner;
                            let ti = self.ty(inner);
                            let c = self.cval(iv, inner, depth + 1);
                            return format!("{{\"ref\":[{},{}]}}", ti, c);
                        }
                        GlobalAlloc::Function { instance } => {
                            let id = self.inst(instance);
                            return format!("{{\"fnptr\":{}}}", id);
                        }
                        _ => {}
                    }
                }
                "{\"o\":\"ptr\"}".into()
            }
            _ => {
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.into_raw_parts();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        let id = self.inst(instance);
                        return format!("{{\"fnptr\":{}}}", id);
                    }
                }
                "{\"o\":\"other\"}".into()
            }
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = self.norm(c.const_.ty());
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let r = self.resolve(*d, args.skip_binder());
            return format!("[\"k\",{},{{\"fn\":{}}}]", ti, r);
        }
        let mut name = String::from("null");
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                name = esc(&self.key(u.def));
            }
        }
        let tcx = self.tcx;
        let cc = c.const_;
        let env = self.env;
        let span = c.span;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cc.eval(tcx, env, span)));
        let v = match r {
            Ok(Ok(v)) => self.cval(v, t, 0),
            _ => "{\"o\":\"uneval\"}".into(),
        };
        format!("[\"k\",{},{},{}]", ti, v, name)
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(r) => {
                let _ = r;
                let t = self.ty(self.tcx.types.bool);
                format!("[\"k\",{},{{\"i\":\"0\"}},null]", t)
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = self.norm(*n).try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"static\",{}]", esc(&self.key(*d))),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), self.operand(o), ti)
            }
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",{},{},{}]", esc(&format!("{op:?}")), self.operand(&b.0), self.operand(&b.1))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{op:?}")), self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(_, v, _, _, f) => {
                        format!("[\"adt\",{},{}]", v.as_usize(), f.map(|f| f.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(..) => "[\"closure\"]".to_string(),
                    AggregateKind::Coroutine(..) => "[\"coroutine\"]".to_string(),
                    AggregateKind::CoroutineClosure(..) => "[\"cc\"]".to_string(),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, arr(os))
            }
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }

    fn body(&mut self, id: usize, inst: Instance<'tcx>, body: Body<'tcx>) -> String {
        let tcx = self.tcx;
        let body: Body<'tcx> = tcx
            .try_normalize_erasing_regions(self.env, Unnormalized::new_wip(body.clone()))
            .unwrap_or(body);
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for b in body.basic_blocks.iter() {
            if b.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in b.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1);
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[{},{},{}]", p, r, esc(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[{},[\"setdisc\",{}],\"\"]", p, variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[[{},[]],[\"dead\"],\"\"]", l.as_usize())),
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(format!("[\"{}\",{}]", val, bb.as_usize()));
                    }
                    let dty = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dty);
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), arr(v), targets.otherwise().as_usize(), dt)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pti = self.ty(pt);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), pti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = self.norm(func.ty(&body.local_decls, tcx));
                    let f = match fty.kind() {
                        ty::FnDef(d, a) => self.resolve(*d, a.skip_binder()),
                        _ => format!("{{\"ptr\":{}}}", self.operand(func)),
                    };
                    let a: Vec<String> = args.iter().map(|o| self.operand(&o.node)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|o| {
                            let t = o.node.ty(&body.local_decls, tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dti = self.ty(dt);
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        f,
                        arr(a),
                        self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        dti,
                        arr(at),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = format!("{msg:?}");
                    let m = m.split('(').next().unwrap_or("").to_string();
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, target.as_usize(), esc(&m), sp)
                }
                TerminatorKind::Yield { resume, .. } => format!("[\"yield\",{}]", resume.as_usize()),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                _ => "[\"stop\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", arr(st), term));
        }
        let d = inst.def_id();
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(d, inst.args));
        let derived = tcx.impl_of_assoc(d).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
        let tr = tcx
            .trait_of_assoc(d)
            .or_else(|| tcx.impl_of_assoc(d).and_then(|i| tcx.impl_opt_trait_ref(i).map(|t| t.skip_binder().def_id)))
            .map(|t| esc(&self.key(t)))
            .unwrap_or("null".into());
        let selfty = match tcx.impl_of_assoc(d) {
            Some(i) => {
                let t = tcx.type_of(i).instantiate(tcx, inst.args).skip_norm_wip();
                self.ty(t).to_string()
            }
            None => "null".into(),
        };
        let vis = tcx.visibility(tcx.typeck_root_def_id(d)).is_public();
        let a = self.args_json(inst.args);
        format!(
            "{{\"id\":{},\"key\":{},\"name\":{},\"item\":{},\"args\":{},\"argc\":{},\"locals\":{},\"vars\":{},\"blocks\":{},\"derived\":{},\"trait\":{},\"self\":{},\"pub\":{},\"span\":{},\"kind\":{}}}",
            id,
            esc(&self.key(d)),
            esc(&name),
            esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
            a,
            body.arg_count,
            arr(locals),
            arr(names),
            arr(blocks),
            derived,
            tr,
            selfty,
            vis,
            esc(&self.span(tcx.def_span(d))),
            esc(&match inst.def {
                InstanceKind::Item(_) => "item".to_string(),
                k => format!("{k:?}").split('(').next().unwrap().to_string(),
            })
        )
    }

    /// An instance without body: name and metadata only.
    fn nobody(&mut self, id: usize, inst: Instance<'tcx>, why: &str) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(d, inst.args));
        let derived = tcx.impl_of_assoc(d).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
        let tr = tcx
            .trait_of_assoc(d)
            .or_else(|| tcx.impl_of_assoc(d).and_then(|i| tcx.impl_opt_trait_ref(i).map(|t| t.skip_binder().def_id)))
            .map(|t| esc(&self.key(t)))
            .unwrap_or("null".into());
        let selfty = match tcx.impl_of_assoc(d) {
            Some(i) => {
                let t = tcx.type_of(i).instantiate(tcx, inst.args).skip_norm_wip();
                self.ty(t).to_string()
            }
            None => "null".into(),
        };
        let a = self.args_json(inst.args);
        format!(
            "{{\"id\":{},\"key\":{},\"name\":{},\"item\":{},\"args\":{},\"nobody\":{},\"derived\":{},\"trait\":{},\"self\":{}}}",
            id,
            esc(&self.key(d)),
            esc(&name),
            esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
            a,
            esc(why),
            derived,
            tr,
            selfty
        )
    }

    fn wanted(&self, inst: &Instance<'tcx>) -> Result<(), String> {
        let d = inst.def_id();
        let k = self.key(d);
        match inst.def {
            InstanceKind::Intrinsic(_) => return Err("intrinsic".into()),
            InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => return Err("virtual".into()),
            InstanceKind::Shim(s) => {
                let n = format!("{s:?}");
                if n.starts_with("FnPtr(") || n.starts_with("ClosureOnce") || n.starts_with("Clone") {
                    return Ok(());
                }
                return Err("shim".into());
            }
            InstanceKind::Item(_) => {}
        }
        for s in &self.stop {
            if !s.is_empty() && k.starts_with(s.as_str()) {
                return Err("stop".into());
            }
        }
        let cr = self.tcx.crate_name(d.krate);
        if d.is_local() || cr.as_str() == "core" || self.local_crates().iter().any(|c| c == cr.as_str()) {
            if self.tcx.is_mir_available(d) {
                return Ok(());
            }
            return Err("nomir".into());
        }
        Err("external".into())
    }
    fn local_crates(&self) -> Vec<String> {
        std::env::var("VDRV_LOCAL").unwrap_or_default().split(',').map(|s| s.to_string()).collect()
    }

    fn fill_args(&self, d: DefId) -> Option<ty::GenericArgsRef<'tcx>> {
        let tcx = self.tcx;
        let mut bad = false;
        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } => {
                // the unique ADT implementing a bound of this parameter
                let preds = tcx.clauses_of(d).instantiate_identity(tcx);
                let mut cand: Option<Ty<'tcx>> = None;
                for c in preds.clauses.iter() {
                    if let Some(tp) = c.skip_norm_wip().as_trait_clause() {
                        let tp = tp.skip_binder();
                        if let ty::Param(pp) = tp.self_ty().kind() {
                            if pp.index == p.index {
                                let adts: Vec<Ty<'tcx>> = tcx
                                    .all_impls(tp.trait_ref.def_id)
                                    .map(|i| tcx.type_of(i).instantiate_identity().skip_norm_wip())
                                    .filter(|t| matches!(t.kind(), ty::Adt(_, a) if a.is_empty()))
                                    .collect();
                                if adts.len() == 1 {
                                    cand = Some(adts[0]);
                                }
                            }
                        }
                    }
                }
                match cand {
                    Some(t) => t.into(),
                    None => {
                        bad = true;
                        tcx.types.unit.into()
                    }
                }
            }
            ty::GenericParamDefKind::Const { .. } => {
                bad = true;
                tcx.types.unit.into()
            }
        });
        if bad {
            None
        } else {
            Some(args)
        }
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut roots = vec![];
        let owners: Vec<_> = tcx.hir_body_owners().collect();
        for l in owners {
            let d = l.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let Some(args) = self.fill_args(d) else { continue };
            let i = match Instance::try_resolve(tcx, self.env, d, args) {
                Ok(Some(i)) => i,
                _ => continue,
            };
            let id = self.inst(i);
            roots.push(id.to_string());
        }
        let mut fns = vec![];
        while let Some(i) = self.queue.pop_front() {
            let id = self.insts[&i];
            match self.wanted(&i) {
                Err(w) => {
                    let s = self.nobody(id, i, &w);
                    fns.push(s);
                }
                Ok(()) => {
                    let d = i.def_id();
                    let b: Body<'tcx> = if let Some(b) = self.built.get(&d) {
                        let b = b.clone();
                        i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b))
                    } else {
                        let b = tcx.instance_mir(i.def).clone();
                        i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b))
                    };
                    let s = self.body(id, i, b);
                    fns.push(s);
                }
            }
        }
        // source-level impl tables: trait impls of local crate types are visible through fns
        let mut consts = vec![];
        for l in tcx.hir_body_owners() {
            let d = l.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) && tcx.generics_of(d).count() == 0 {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if let Ok(v) = tcx.const_eval_poly(d) {
                    let ti = self.ty(t);
                    let c = self.cval(v, t, 0);
                    consts.push(format!("[{},{},{}]", esc(&self.key(d)), ti, c));
                }
            }
        }
        format!(
            "{{\"crate\":{},\"roots\":{},\n\"types\":[\n{}\n],\n\"fns\":[\n{}\n],\n\"consts\":{}}}",
            esc(tcx.crate_name(LOCAL_CRATE).as_str()),
            arr(roots),
            self.type_json.join(",\n"),
            fns.join(",\n"),
            arr(consts)
        )
    }
}

struct Cb {
    on: bool,
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if !self.on {
            return Compilation::Continue;
        }
        let cn = tcx.crate_name(LOCAL_CRATE).to_string();
        let want = std::env::var("VDRV_CRATES").unwrap_or_default();
        if !want.split(',').any(|c| c == cn) {
            return Compilation::Continue;
        }
        let mut built = HashMap::new();
        for l in tcx.hir_body_owners() {
            if tcx.is_coroutine(l.to_def_id()) {
                let b = tcx.mir_built(l).borrow().clone();
                built.insert(l.to_def_id(), b);
            }
        }
        tcx.ensure_ok().analysis(());
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let stop = std::env::var("VDRV_STOP").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
        let mut d = Dump {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            types: HashMap::new(),
            type_json: vec![],
            insts: HashMap::new(),
            queue: VecDeque::new(),
            built,
            stop,
        };
        let s = d.run();
        let p = format!("{}/{}.json", self.out, cn);
        std::fs::write(format!("{p}.tmp"), s).expect("write dump");
        std::fs::rename(format!("{p}.tmp"), &p).expect("rename dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("VDRV_OUT").unwrap_or_default();
    let on = !out.is_empty();
    let mut cb = Cb { on, out };
    let _ = J { s: String::new() }.s;
    rustc_driver::install_ice_hook("", |_| ());
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 101 });
}
