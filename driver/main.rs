//! A rustc driver that behaves like rustc, and additionally writes the
//! type-checked program (MIR after borrow checking and drop elaboration, with
//! calls resolved) of the crates of the analysed workspace as JSON.
//!
//! Environment:
//!   FACTS_OUT   directory for `<crate>.json` (unset: plain rustc)
//!   FACTS_ROOT  only crates whose CARGO_MANIFEST_DIR is below this are dumped
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::source_map::{FileLoader, RealFileLoader};
use std::fmt::Write as _;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// Two dependencies predate inherent `File` methods added to newer standard
/// libraries; spell the intended trait method out for them.
struct Loader;
impl FileLoader for Loader {
    fn file_exists(&self, path: &Path) -> bool {
        RealFileLoader.file_exists(path)
    }
    fn read_file(&self, path: &Path) -> io::Result<String> {
        let text = RealFileLoader.read_file(path)?;
        let name = path.to_string_lossy();
        if name.contains("esl01-indexedlog-") && name.ends_with("src/lock.rs") {
            let mut text = text;
            for m in ["lock_exclusive", "try_lock_exclusive", "lock_shared", "try_lock_shared"] {
                text = text.replace(&format!("=> file.{m}(),"), &format!("=> FileExt::{m}(&file),"));
            }
            return Ok(text);
        }
        Ok(text)
    }
    fn read_binary_file(&self, path: &Path) -> io::Result<Arc<[u8]>> {
        RealFileLoader.read_binary_file(path)
    }
    fn current_directory(&self) -> io::Result<PathBuf> {
        RealFileLoader.current_directory()
    }
}

struct Facts;
impl Callbacks for Facts {
    fn config(&mut self, config: &mut interface::Config) {
        config.file_loader = Some(Box::new(Loader));
        if wanted() {
            config.opts.unstable_opts.mir_opt_level = Some(0);
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if wanted() {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            if name != "build_script_build" {
                dump(tcx, &name);
            }
        }
        Compilation::Continue
    }
}

fn wanted() -> bool {
    let (Ok(_), Ok(root), Ok(dir)) = (
        std::env::var("FACTS_OUT"),
        std::env::var("FACTS_ROOT"),
        std::env::var("CARGO_MANIFEST_DIR"),
    ) else {
        return false;
    };
    Path::new(&dir).starts_with(&root)
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn fix(&self, s: String) -> String {
        s.replace("crate::", &format!("{}::", self.krate))
    }
    fn path(&self, d: DefId) -> String {
        let s = ty::print::with_crate_prefix!(ty::print::with_no_trimmed_paths!(
            ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        ));
        self.fix(s)
    }
    fn path_args(&self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let s = ty::print::with_crate_prefix!(ty::print::with_no_trimmed_paths!(
            ty::print::with_no_visible_paths!(self.tcx.def_path_str_with_args(d, a))
        ));
        self.fix(s)
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        let s = ty::print::with_crate_prefix!(ty::print::with_no_trimmed_paths!(
            ty::print::with_no_visible_paths!(format!("{t}"))
        ));
        self.fix(s)
    }

    fn place(&self, b: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = String::new();
        let _ = write!(o, "[{}", p.local.index());
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut owner = String::new();
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            owner = self.path(def.did());
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => def.variant(rustc_abi::FIRST_VARIANT),
                                None => def.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        ty::Closure(d, _) => {
                            owner = "closure".into();
                            d.as_local()
                                .map(|l| {
                                    self.tcx
                                        .closure_captures(l)
                                        .get(f.index())
                                        .map(|c| c.to_symbol().to_string())
                                        .unwrap_or_default()
                                })
                                .unwrap_or_default()
                        }
                        _ => f.index().to_string(),
                    };
                    let _ = write!(o, "[\"f\",{},{},{}]", f.index(), js(&name), js(&owner));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.index());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"c\",{},{}]", offset, from_end as u8);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end as u8);
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.index().to_string(),
                    };
                    let _ = write!(o, "[\"v\",{},{}]", v.index(), js(&name));
                }
                _ => o.push_str("\"?\""),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn fndef(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        // [path, resolved path or null, self type or null, local closure path or null, path with args]
        let mut resolved = None;
        let kind = self.tcx.def_kind(d);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let a = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, self.env, d, a) {
                resolved = Some(inst.def_id());
            }
        }
        let self_ty = if self.tcx.trait_of_assoc(d).is_some() && !args.is_empty() {
            args.types().next().map(|t| self.ty(t))
        } else {
            None
        };
        format!(
            "[{},{},{},{}]",
            js(&self.path(d)),
            resolved.map(|r| js(&self.path(r))).unwrap_or("null".into()),
            self_ty.map(|t| js(&t)).unwrap_or("null".into()),
            js(&self.path_args(d, args)),
        )
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let ty = c.const_.ty();
        let tys = js(&self.ty(ty));
        if let ty::FnDef(d, args) = ty.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            return format!("{{\"fn\":{}}}", self.fndef(*d, args));
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"promoted\":{},\"of\":{},\"ty\":{}}}", p.index(), js(&self.path(u.def)), tys);
            }
            let _ = write!(extra, ",\"def\":{}", js(&self.path(u.def)));
        }
        if let Const::Val(ConstValue::Scalar(s), _) = c.const_ {
            if s.size().bytes() == 8 {
 let p = s.to_pointer(&self.tcx);
                if let Some(prov) = p.provenance {
                    if let interpret::GlobalAlloc::Static(d) = self.tcx.global_alloc(prov.alloc_id()) {
                        let _ = write!(extra, ",\"static\":{}", js(&self.path(d)));
                    }
                }
            }
        }
        let val = c.const_.eval(self.tcx, self.env, c.span).ok();
        let v = match val {
            Some(v) => self.constval(v, ty),
            None => "null".into(),
        };
        format!("{{\"ty\":{tys},\"v\":{v}{extra}}}")
    }

    fn constval(&self, v: ConstValue, ty: Ty<'tcx>) -> String {
        match ty.kind() {
            ty::Ref(_, inner, _) => {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(t) if *t == self.tcx.types.u8) {
                    if let ConstValue::Slice { .. } | ConstValue::Indirect { .. } = v {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            return format!("{{\"s\":{}}}", js(&String::from_utf8_lossy(b)));
                        }
                    }
                }
                if let ty::Array(t, n) = inner.kind() {
                    if *t == self.tcx.types.u8 {
                        if let (Some(n), ConstValue::Scalar(s)) = (n.try_to_target_usize(self.tcx), v) {
                            if s.size().bytes() == 8 {
 let p = s.to_pointer(&self.tcx);
                                if let Some(prov) = p.provenance {
                                    if let interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(prov.alloc_id()) {
                                        let start = p.into_raw_parts().1.bytes_usize();
                                        let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(start..start + n as usize);
                                        let list: Vec<String> = bytes.iter().map(|b| b.to_string()).collect();
                                        return format!("{{\"b\":[{}]}}", list.join(","));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            ty::Bool => {
                if let Some(b) = v.try_to_bool() {
                    return format!("{{\"i\":{}}}", b as u8);
                }
            }
            ty::Int(_) | ty::Uint(_) | ty::Char => {
                if let Some(s) = v.try_to_scalar_int() {
                    let size = s.size();
                    let n = if matches!(ty.kind(), ty::Int(_)) {
                        s.to_int(size).to_string()
                    } else {
                        s.to_uint(size).to_string()
                    };
                    return format!("{{\"i\":{n}}}");
                }
            }
            ty::Adt(def, _) if def.is_enum() => {
                // Plain fieldless enum constants.
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.to_bits(s.size());
                    for (i, d) in def.discriminants(self.tcx) {
                        if d.val == bits && def.variant(i).fields.is_empty() {
                            return format!("{{\"e\":{}}}", js(def.variant(i).name.as_str()));
                        }
                    }
                }
            }
            _ => {}
        }
        let s = ty::print::with_crate_prefix!(ty::print::with_no_trimmed_paths!(format!("{}", Const::Val(v, ty))));
        format!("{{\"p\":{}}}", js(&self.fix(s)))
    }

    fn op(&self, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => self.place(b, p),
            Operand::Move(p) => self.place(b, p),
            Operand::Constant(c) => self.konst(c),
            _ => "{\"v\":null,\"ty\":\"bool\"}".into(),
        }
    }

    fn rvalue(&self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(b, o)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.op(b, o)),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                self.place(b, p),
                matches!(k, BorrowKind::Mut { .. }) as u8
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},1]", self.place(b, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{}]", self.place(b, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",{},1]", self.place(b, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", self.op(b, o), js(&self.ty(*t)), js(&format!("{k:?}")))
            }
            Rvalue::BinaryOp(op, ops) => {
                format!("[\"bin\",{},{},{}]", js(&format!("{op:?}")), self.op(b, &ops.0), self.op(b, &ops.1))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", js(&format!("{op:?}")), self.op(b, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let mut vs = String::new();
                let mut name = self.ty(t);
                if let ty::Adt(def, _) = t.kind() {
                    name = self.path(def.did());
                    if def.is_enum() {
                        for (i, d) in def.discriminants(self.tcx) {
                            if !vs.is_empty() {
                                vs.push(',');
                            }
                            let _ = write!(vs, "[\"{}\",{}]", d.val, js(def.variant(i).name.as_str()));
                        }
                    }
                }
                format!("[\"discr\",{},{},[{}]]", self.place(b, p), js(&name), vs)
            }
            Rvalue::Aggregate(k, ops) => {
                let list: Vec<String> = ops.iter().map(|o| self.op(b, o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names: Vec<String> = var.fields.iter().map(|f| js(f.name.as_str())).collect();
                        format!(
                            "[\"adt\",{},{},[{}],{}]",
                            js(&self.path(*d)),
                            js(var.name.as_str()),
                            names.join(","),
                            def.is_enum() as u8
                        )
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => format!("[\"closure\",{}]", js(&self.path(*d))),
                    AggregateKind::RawPtr(..) => "[\"tuple\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kind, list.join(","))
            }
            _ => "[\"other\"]".into(),
        }
    }

    fn body(&self, out: &mut String, b: &Body<'tcx>) {
        out.push_str("\"argc\":");
        let _ = write!(out, "{},\"locals\":[", b.arg_count);
        for (i, l) in b.local_decls.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            out.push_str(&js(&self.ty(l.ty)));
        }
        out.push_str("],\"clos\":{");
        let mut first = true;
        for (i, l) in b.local_decls.iter_enumerated() {
            if let ty::Closure(d, _) | ty::Coroutine(d, _) = l.ty.peel_refs().kind() {
                if !first {
                    out.push(',');
                }
                first = false;
                let _ = write!(out, "\"{}\":{}", i.index(), js(&self.path(*d)));
            }
        }
        out.push_str("},\"names\":{");
        let mut first = true;
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    if !first {
                        out.push(',');
                    }
                    first = false;
                    let _ = write!(out, "\"{}\":{}", p.local.index(), js(v.name.as_str()));
                }
            }
        }
        out.push_str("},\"bbs\":[");
        let sm = self.tcx.sess.source_map();
        for (i, bb) in b.basic_blocks.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            if bb.is_cleanup {
                out.push_str("null");
                continue;
            }
            out.push_str("[[");
            let mut first = true;
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        if !first {
                            out.push(',');
                        }
                        first = false;
                        let _ = write!(out, "[{},{}]", self.place(b, &a.0), self.rvalue(b, &a.1));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        if !first {
                            out.push(',');
                        }
                        first = false;
                        let _ = write!(out, "[{},[\"setdiscr\",{}]]", self.place(b, place), variant_index.index());
                    }
                    _ => {}
                }
            }
            out.push_str("],");
            let t = bb.terminator();
            let line = sm.lookup_char_pos(t.source_info.span.source_callsite().lo()).line;
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = String::new();
                    for (val, t) in targets.iter() {
                        if !v.is_empty() {
                            v.push(',');
                        }
                        let _ = write!(v, "[\"{}\",{}]", val, t.index());
                    }
                    format!(
                        "[\"switch\",{},{},[{}],{}]",
                        self.op(b, discr),
                        js(&self.ty(discr.ty(&b.local_decls, self.tcx))),
                        v,
                        targets.otherwise().index()
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, place, .. } => format!(
                    "[\"drop\",{},{},{}]",
                    target.index(),
                    self.place(b, place),
                    js(&self.ty(place.ty(&b.local_decls, self.tcx).ty))
                ),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let list: Vec<String> = args.iter().map(|a| self.op(b, &a.node)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{}]",
                        self.op(b, func),
                        list.join(","),
                        self.place(b, destination),
                        target.map(|t| t.index().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::Yield { resume, .. } => format!("[\"goto\",{}]", resume.index()),
                _ => "[\"unreachable\"]".into(),
            };
            let _ = write!(out, "{term},{line}]");
        }
        out.push_str("]");
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, krate: &str) {
    let mut out = String::new();
    let kind = if tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable") {
        "bin"
    } else {
        "lib"
    };
    let _ = write!(out, "{{\"crate\":{},\"kind\":\"{}\",\"fns\":[\n", js(krate), kind);
    let mut first = true;
    for ld in tcx.mir_keys(()) {
        let did = ld.to_def_id();
        let dk = tcx.def_kind(did);
        let is_fn = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let is_const = matches!(
            dk,
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }
        );
        if !is_fn && !is_const {
            continue;
        }
        let cx = Cx { tcx, krate: krate.to_string(), env: TypingEnv::post_analysis(tcx, did) };
        let body: &Body<'tcx> = if is_fn { tcx.optimized_mir(did) } else { tcx.mir_for_ctfe(did) };
        let sm = tcx.sess.source_map();
        let sp = tcx.def_span(did).source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let file = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            o => format!("{o:?}"),
        };
        if !first {
            out.push_str(",\n");
        }
        first = false;
        let vis = match dk {
            DefKind::Closure => false,
            _ => tcx.visibility(did).is_public(),
        };
        let parent = tcx.parent(did);
        let (trait_impl, auto) = if tcx.def_kind(parent) == (DefKind::Impl { of_trait: true }) {
            (1, tcx.is_automatically_derived(parent) as u8)
        } else {
            (0, 0)
        };
        let _ = write!(
            out,
            "{{\"path\":{},\"k\":\"{}\",\"pub\":{},\"ti\":{},\"auto\":{},\"async\":{},\"file\":{},\"line\":{},",
            js(&cx.path(did)),
            match dk {
                DefKind::Closure => "closure",
                _ if is_const => "const",
                _ => "fn",
            },
            vis as u8,
            trait_impl,
            auto,
            (dk == DefKind::Closure && tcx.is_coroutine(did)) as u8,
            js(&file),
            lo.line
        );
        cx.body(&mut out, body);
        out.push_str(",\"prom\":[");
        let proms = tcx.promoted_mir(did);
        for (i, p) in proms.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            out.push('{');
            cx.body(&mut out, p);
            out.push('}');
        }
        out.push_str("]}");
    }
    out.push_str("\n]}\n");
    let dir = std::env::var("FACTS_OUT").unwrap();
    let _ = std::fs::create_dir_all(&dir);
    let path = Path::new(&dir).join(format!("{krate}.{kind}.json"));
    std::fs::write(path, out).expect("write facts");
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args[0] = "rustc".into();
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Facts)
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
