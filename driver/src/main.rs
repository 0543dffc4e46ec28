#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::Scalar;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_span::Span;
use std::collections::HashMap;

struct Cb;

impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        dump(tcx);
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let outdir = std::env::var("SXFACTS_OUT").ok();
    if outdir.is_some() && krate.starts_with("substrait_explain") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb))
    } else {
        struct No;
        impl rustc_driver_impl::Callbacks for No {}
        rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut No))
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: HashMap<DefId, usize>,
    adt_out: Vec<J>,
    mono: bool,
    work: Vec<Instance<'tcx>>,
    seen: HashMap<Instance<'tcx>, String>,
    /// standard-library instances (and what only they instantiate), kept apart from the crate's own
    swork: Vec<Instance<'tcx>>,
    stdmode: bool,
}

fn inst_id<'tcx>(tcx: TyCtxt<'tcx>, i: Instance<'tcx>) -> String {
    let k = key(tcx, i.def_id());
    let mut a: Vec<String> = vec![];
    let args = if tcx.is_closure_like(i.def_id()) {
        let p = tcx.typeck_root_def_id(i.def_id());
        let n = tcx.generics_of(p).count();
        &i.args[..n.min(i.args.len())]
    } else {
        &i.args[..]
    };
    for x in args.iter() {
        if let Some(t) = x.as_type() {
            a.push(with_no_trimmed_paths!(format!("{t}")));
        }
    }
    if a.is_empty() { k } else { format!("{k}<{}>", a.join(", ")) }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

/// A globally unique key for a definition: crate + def path data (disambiguated).
fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let root = sp.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let mac = if sp.from_expansion() {
            let d = sp.ctxt().outer_expn_data();
            J::s(format!("{:?}", d.kind))
        } else {
            J::Null
        };
        J::A(vec![
            J::s(format!("{}", lo.file.name.prefer_local_unconditionally())),
            J::i(lo.line as i128),
            J::i(lo.col.0 as i128 + 1),
            mac,
        ])
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> usize {
        if let Some(&i) = self.adts.get(&def.did()) {
            return i;
        }
        let i = self.adt_out.len();
        self.adts.insert(def.did(), i);
        self.adt_out.push(J::Null);
        let tcx = self.tcx;
        let kr = tcx.crate_name(def.did().krate).to_string();
        let interesting = !matches!(kr.as_str(), "std" | "alloc")
            || def.is_enum();
        let mut variants = vec![];
        if interesting {
            for (vi, v) in def.variants().iter_enumerated() {
                let disc = if def.is_enum() {
                    def.discriminant_for_variant(tcx, vi).val as i128
                } else {
                    0
                };
                let mut fields = vec![];
                for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity();
                    let t = t.skip_norm_wip();
                    let ti = self.ty(t);
                    fields.push(J::A(vec![
                        J::s(f.name.to_string()),
                        J::i(ti),
                        J::s(format!("{:?}", f.vis)),
                    ]));
                }
                variants.push(J::O(vec![
                    ("name", J::s(v.name.to_string())),
                    ("disc", J::I(disc)),
                    ("fields", J::A(fields)),
                ]));
            }
        }
        self.adt_out[i] = J::O(vec![
            ("path", J::s(path(tcx, def.did()))),
            ("kind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("crate", J::s(kr)),
            ("variants", J::A(variants)),
        ]);
        i
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let tcx = self.tcx;
        let st = with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(st))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("p", J::s(path(tcx, def.did()))));
                let a = args.types().map(|x| J::i(self.ty(x))).collect();
                o.push(("a", J::A(a)));
                let ad = self.adt(*def);
                o.push(("adt", J::i(ad)));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s(if m.is_mut() { "refmut" } else { "ref" })));
                o.push(("a", J::A(vec![J::i(self.ty(*inner))])));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", J::s("ptr")));
                o.push(("a", J::A(vec![J::i(self.ty(*inner))])));
            }
            ty::Slice(inner) => {
                o.push(("k", J::s("slice")));
                o.push(("a", J::A(vec![J::i(self.ty(*inner))])));
            }
            ty::Array(inner, _) => {
                o.push(("k", J::s("array")));
                o.push(("a", J::A(vec![J::i(self.ty(*inner))])));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let a = ts.iter().map(|x| J::i(self.ty(x))).collect();
                o.push(("a", J::A(a)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                o.push(("p", J::s(path(tcx, *d))));
                o.push(("key", J::s(key(tcx, *d))));
                let a = args.skip_binder().types().map(|x| J::i(self.ty(x))).collect();
                o.push(("a", J::A(a)));
                if self.mono && !t.has_param() {
                    let env = ty::TypingEnv::fully_monomorphized();
                    let f = self.fnref(env, *d, args.skip_binder());
                    o.push(("fn", f));
                }
            }
            ty::Closure(d, _) => {
                o.push(("k", J::s("closure")));
                o.push(("key", J::s(key(tcx, *d))));
                if self.mono {
                    if let ty::Closure(d, cargs) = t.kind() {
                        if !cargs.has_param() {
                            let i = Instance::new_raw(*d, tcx.erase_and_anonymize_regions(*cargs));
                            if let Some(id) = self.push_inst(i).or_else(|| self.push_std(i)) {
                                o.push(("inst", J::s(id)));
                            }
                        }
                    }
                }
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("p", J::s(p.name.to_string())));
            }
            ty::Dynamic(..) => {
                o.push(("k", J::s("dyn")));
                if let ty::Dynamic(preds, ..) = t.kind() {
                    if let Some(p) = preds.principal_def_id() {
                        o.push(("p", J::s(path(tcx, p))));
                    }
                }
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Bool | ty::Char | ty::Str | ty::Never => {
                o.push(("k", J::s("prim")))
            }
            _ => o.push(("k", J::s("other"))),
        }
        self.ty_out[i] = J::O(o);
        i
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pty = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(v).fields[f].name.to_string()
                        }
                        _ => format!("{}", f.index()),
                    };
                    let ti = self.ty(t);
                    J::O(vec![("f", J::i(f.index() as i128)), ("n", J::s(name)), ("t", J::i(ti))])
                }
                ProjectionElem::Downcast(n, v) => J::O(vec![
                    ("d", J::i(v.index() as i128)),
                    ("n", n.map(|x| J::s(x.to_string())).unwrap_or(J::Null)),
                ]),
                ProjectionElem::Index(l) => J::O(vec![("i", J::i(l.index() as i128))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::O(vec![("ci", J::i(offset as i128)), ("fe", J::B(from_end))])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("ss", J::A(vec![J::i(from as i128), J::i(to as i128), J::B(from_end)])),
                ]),
                other => J::O(vec![("other", J::s(format!("{other:?}")))]),
            };
            proj.push(j);
            pty = pty.projection_ty(tcx, e);
        }
        J::O(vec![("l", J::i(p.local.index() as i128)), ("p", J::A(proj))])
    }

    fn push_inst(&mut self, i: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let ty::InstanceKind::Item(d) = i.def else { return None };
        if !d.is_local() || i.args.has_param() {
            return None;
        }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            return None;
        }
        if let Some(s) = self.seen.get(&i) {
            return Some(s.clone());
        }
        let id = inst_id(tcx, i);
        self.seen.insert(i, id.clone());
        if self.stdmode { self.swork.push(i) } else { self.work.push(i) }
        Some(id)
    }

    /// Instances of safe, generic standard-library code whose MIR is encoded in the library.
    fn push_std(&mut self, i: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let ty::InstanceKind::Item(d) = i.def else { return None };
        if d.is_local() || i.args.has_param() || i.args.has_escaping_bound_vars() {
            return None;
        }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) || tcx.intrinsic(d).is_some() {
            return None;
        }
        let k = key(tcx, d);
        const MODS: &[&str] = &["core::option::", "core::result::", "core::bool::", "core::iter::", "core::cmp::", "core::ops::control_flow", "core::ops::try_trait",
            "core::ops::range", "core::ops::function", "core::tuple::", "core::char::methods", "core::convert::", "alloc::borrow::", "core::array::"];
        if !MODS.iter().any(|m| k.starts_with(m)) || !tcx.is_mir_available(d) {
            return None;
        }
        if let Some(s) = self.seen.get(&i) {
            return Some(s.clone());
        }
        let id = inst_id(tcx, i);
        self.seen.insert(i, id.clone());
        self.swork.push(i);
        Some(id)
    }

    fn push_ty(&mut self, t: Ty<'tcx>) {
        let tcx = self.tcx;
        match t.kind() {
            ty::Closure(d, cargs) if d.is_local() => {
                let i = Instance::new_raw(*d, tcx.erase_and_anonymize_regions(*cargs));
                self.push_inst(i);
            }
            ty::FnDef(d, fargs) => {
                let env = ty::TypingEnv::fully_monomorphized();
                let fargs = tcx.erase_and_anonymize_regions(fargs.skip_binder());
                if !matches!(tcx.def_kind(*d), DefKind::Ctor(..)) {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, env, *d, fargs) {
                        self.push_inst(i);
                    }
                }
            }
            _ => {}
        }
    }

    /// Local trait-impl methods an external (or blanket) callee may run, through its bounds.
    fn via(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, depth: usize, out: &mut Vec<J>, vis: &mut std::collections::HashSet<(DefId, ty::GenericArgsRef<'tcx>)>) {
        let tcx = self.tcx;
        if depth > 4 || !vis.insert((d, args)) {
            return;
        }
        let env = ty::TypingEnv::fully_monomorphized();
        for c in tcx.clauses_of(d).instantiate(tcx, args).clauses {
            let c = c.skip_norm_wip();
            let Some(tc) = c.as_trait_clause() else { continue };
            let Some(tc) = tc.no_bound_vars() else { continue };
            let tr = tc.trait_ref;
            if tr.has_param() || tr.has_escaping_bound_vars() {
                continue;
            }
            let Ok(tr) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(tr)) else { continue };
            let nm = tcx.item_name(tr.def_id).to_string();
            if matches!(nm.as_str(), "Sized" | "Send" | "Sync" | "Copy" | "MetaSized" | "Allocator" | "Unpin" | "Destruct") {
                continue;
            }
            for it in tcx.associated_items(tr.def_id).in_definition_order() {
                if !it.is_fn() || tcx.generics_of(it.def_id).own_requires_monomorphization() {
                    continue;
                }
                let margs = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                    if (p.index as usize) < tr.args.len() {
                        tr.args[p.index as usize]
                    } else {
                        tcx.lifetimes.re_erased.into()
                    }
                });
                let margs = tcx.erase_and_anonymize_regions(margs);
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, it.def_id, margs) {
                    if inst.def_id().is_local() {
                        if let Some(id) = self.push_inst(inst) {
                            let n = format!("{}::{}", path(tcx, tr.def_id), it.opt_name().map(|x| x.to_string()).unwrap_or_default());
                            out.push(J::A(vec![J::s(n), J::s(id)]));
                        }
                    } else if inst.def_id() != d && matches!(inst.def, ty::InstanceKind::Item(_)) {
                        self.via(inst.def_id(), inst.args, depth + 1, out, vis);
                    }
                }
            }
        }
    }

    fn fnref(&mut self, env: ty::TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("p", J::s(path(tcx, d))),
            ("key", J::s(key(tcx, d))),
            ("full", J::s(with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args)))),
            ("local", J::B(d.is_local())),
        ];
        let a = args.types().map(|x| J::i(self.ty(x))).collect();
        o.push(("a", J::A(a)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(path(tcx, tr))));
            o.push(("name", J::s(tcx.item_name(d).to_string())));
        } else if let Some(n) = tcx.opt_item_name(d) {
            o.push(("name", J::s(n.to_string())));
        }
        if !matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let args = tcx.erase_and_anonymize_regions(args);
            if !args.has_escaping_bound_vars() {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                    let rd = inst.def_id();
                    if self.mono {
                        if let Some(id) = self.push_inst(inst) {
                            o.push(("inst", J::s(id)));
                        } else if !rd.is_local() && !matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                            let mut out = vec![];
                            let mut vis = Default::default();
                            if !matches!(path(tcx, d).as_str(), "std::boxed::Box::<T>::new") {
                                self.via(rd, inst.args, 0, &mut out, &mut vis);
                                if rd != d {
                                    self.via(d, args, 0, &mut out, &mut vis);
                                }
                            }
                            if !out.is_empty() {
                                o.push(("via", J::A(out)));
                            }
                            if let Some(id) = self.push_std(inst) {
                                o.push(("sinst", J::s(id)));
                            }
                        }
                        for t in args.types() {
                            self.push_ty(t);
                        }
                        o.push(("ikind", J::s(format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string())));
                    }
                    let virt = matches!(inst.def, ty::InstanceKind::Virtual(..));
                    o.push(("rp", J::s(path(tcx, rd))));
                    o.push(("rkey", J::s(key(tcx, rd))));
                    o.push(("virt", J::B(virt)));
                    o.push(("rlocal", J::B(rd.is_local())));
                }
            }
        } else {
            o.push(("ctor", J::B(true)));
        }
        J::O(o)
    }

    fn cnst(&mut self, env: ty::TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = vec![("c", J::i(ti))];
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fnref(env, *d, args.skip_binder());
            o.push(("fn", f));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::i(p.index() as i128)));
                o.push(("pkey", J::s(key(tcx, u.def))));
            } else {
                o.push(("uneval", J::s(path(tcx, u.def))));
                o.push(("ukey", J::s(key(tcx, u.def))));
            }
        }
        if c.const_.has_param() {
            o.push(("s", J::s(format!("{}", c.const_))));
            return J::O(o);
        }
        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            match v {
                ConstValue::Scalar(Scalar::Int(si)) => {
                    let size = si.size();
                    let val: i128 = if t.is_signed() { si.to_int(size) } else {
                        si.to_uint(size) as i128
                    };
                    o.push(("v", J::I(val)));
                }
                ConstValue::Slice { .. } | ConstValue::Indirect { .. } | ConstValue::Scalar(_) => {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() || matches!(inner.kind(), ty::Slice(x) if *x == tcx.types.u8) {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                match std::str::from_utf8(b) {
                                    Ok(s) => o.push(("str", J::s(s))),
                                    Err(_) => o.push(("bytes", J::A(b.iter().map(|x| J::i(*x as i128)).collect()))),
                                }
                            }
                        } else if let ty::Array(x, _) = inner.kind() {
                            // &[u8; N]: format template or byte string
                            if *x == tcx.types.u8 {
                                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                                    let (prov, off) = p.prov_and_relative_offset();
                                    if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) =
                                        tcx.global_alloc(prov.alloc_id())
                                    {
                                        let a = a.inner();
                                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                            off.bytes() as usize..a.len(),
                                        );
                                        o.push(("bytes", J::A(b.iter().map(|x| J::i(*x as i128)).collect())));
                                    }
                                }
                            }
                        }
                    }
                    if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                        let (prov, _) = p.prov_and_relative_offset();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                            o.push(("static", J::s(key(tcx, d))));
                            o.push(("staticp", J::s(path(tcx, d))));
                        }
                    }
                }
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            }
        }
        o.push(("s", J::s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        J::O(o)
    }

    fn op(&mut self, env: ty::TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("cp", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("mv", self.place(body, p))]),
            Operand::Constant(c) => self.cnst(env, c),
            other => J::O(vec![("other", J::s(format!("{other:?}")))]),
        }
    }

    fn rvalue(&mut self, env: ty::TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", J::s("use")), ("o", self.op(env, body, o))]),
            Rvalue::Repeat(o, _) => J::O(vec![("k", J::s("repeat")), ("o", self.op(env, body, o))]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", J::s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("pl", self.place(body, p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", J::s("rawptr")), ("pl", self.place(body, p))]),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(&body.local_decls, tcx);
                let a = self.ty(ot);
                let b = self.ty(*t);
                J::O(vec![
                    ("k", J::s("cast")),
                    ("ck", J::s(format!("{k:?}"))),
                    ("o", self.op(env, body, o)),
                    ("from", J::i(a)),
                    ("to", J::i(b)),
                ])
            }
            Rvalue::BinaryOp(b, ops) => J::O(vec![
                ("k", J::s("bin")),
                ("op", J::s(format!("{b:?}"))),
                ("a", self.op(env, body, &ops.0)),
                ("b", self.op(env, body, &ops.1)),
            ]),
            Rvalue::UnaryOp(u, o) => J::O(vec![
                ("k", J::s("un")),
                ("op", J::s(format!("{u:?}"))),
                ("a", self.op(env, body, o)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let ti = self.ty(t);
                J::O(vec![("k", J::s("disc")), ("pl", self.place(body, p)), ("t", J::i(ti))])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("k", J::s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("ak", J::s("array"))),
                    AggregateKind::Tuple => o.push(("ak", J::s("tuple"))),
                    AggregateKind::Adt(d, v, _args, _, _) => {
                        let def = tcx.adt_def(*d);
                        o.push(("ak", J::s("adt")));
                        o.push(("p", J::s(path(tcx, *d))));
                        o.push(("v", J::i(v.index() as i128)));
                        o.push(("vn", J::s(def.variant(*v).name.to_string())));
                        o.push((
                            "fields",
                            J::A(def.variant(*v).fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                        ));
                        let ai = self.adt(def);
                        o.push(("adt", J::i(ai)));
                    }
                    AggregateKind::Closure(d, cargs) => {
                        o.push(("ak", J::s("closure")));
                        o.push(("key", J::s(key(tcx, *d))));
                        if self.mono && !cargs.has_param() {
                            let i = Instance::new_raw(*d, tcx.erase_and_anonymize_regions(*cargs));
                            if let Some(id) = self.push_inst(i).or_else(|| self.push_std(i)) {
                                o.push(("inst", J::s(id)));
                            }
                        }
                    }
                    other => {
                        o.push(("ak", J::s("other")));
                        o.push(("s", J::s(format!("{other:?}"))));
                    }
                }
                let v = ops.iter().map(|x| self.op(env, body, x)).collect();
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => {
                J::O(vec![("k", J::s("use")), ("o", J::O(vec![("cp", self.place(body, p))]))])
            }
            other => J::O(vec![("k", J::s("other")), ("s", J::s(format!("{other:?}")))]),
        }
    }

    fn body(&mut self, env: ty::TypingEnv<'tcx>, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut locals = vec![];
        for (_l, d) in body.local_decls.iter_enumerated() {
            locals.push(J::i(self.ty(d.ty)));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![J::s(v.name.to_string()), self.place(body, p),
                    v.argument_index.map(|x| J::i(x as i128)).unwrap_or(J::Null)]));
            }
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let sp = self.span(s.source_info.span);
                        st.push(J::O(vec![
                            ("pl", self.place(body, p)),
                            ("rv", self.rvalue(env, body, r)),
                            ("sp", sp),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::O(vec![
                            ("setdisc", self.place(body, place)),
                            ("v", J::i(variant_index.index() as i128)),
                        ]));
                    }
                    _ => {}
                }
            }
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![];
            let b = |x: BasicBlock| J::i(x.index() as i128);
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", J::s("goto")));
                    o.push(("t", b(*target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", J::s("switch")));
                    o.push(("o", self.op(env, body, discr)));
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dti = self.ty(dt);
                    o.push(("ty", J::i(dti)));
                    o.push((
                        "ts",
                        J::A(targets.iter().map(|(v, t)| J::A(vec![J::I(v as i128), b(t)])).collect()),
                    ));
                    o.push(("else", b(targets.otherwise())));
                }
                TerminatorKind::Return => o.push(("k", J::s("return"))),
                TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    o.push(("k", J::s("resume")))
                }
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    o.push(("k", J::s("drop")));
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let ti = self.ty(t);
                    o.push(("ty", J::i(ti)));
                    o.push(("pl", self.place(body, place)));
                    o.push(("nd", J::B(t.needs_drop(tcx, env))));
                    o.push(("t", b(*target)));
                    if let UnwindAction::Cleanup(c) = unwind {
                        o.push(("u", b(*c)));
                    }
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    o.push(("k", J::s("call")));
                    o.push(("f", self.op(env, body, func)));
                    let a = args.iter().map(|x| self.op(env, body, &x.node)).collect();
                    o.push(("args", J::A(a)));
                    o.push(("d", self.place(body, destination)));
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dti = self.ty(dt);
                    o.push(("dty", J::i(dti)));
                    o.push(("t", target.map(|t| b(t)).unwrap_or(J::Null)));
                    if let UnwindAction::Cleanup(c) = unwind {
                        o.push(("u", b(*c)));
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("k", J::s("assert")));
                    o.push(("o", self.op(env, body, cond)));
                    o.push(("exp", J::B(*expected)));
                    let (m, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.op(env, body, len), self.op(env, body, index)],
                        ),
                        AssertKind::Overflow(bop, a, c) => (
                            format!("overflow:{bop:?}"),
                            vec![self.op(env, body, a), self.op(env, body, c)],
                        ),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.op(env, body, a)]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![self.op(env, body, a)]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![self.op(env, body, a)]),
                        other => (format!("{other:?}").split('(').next().unwrap_or("").to_string(), vec![]),
                    };
                    o.push(("msg", J::s(m)));
                    o.push(("mops", J::A(ops)));
                    o.push(("t", b(*target)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", J::s("goto")));
                    o.push(("t", b(*real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", J::s("goto")));
                    o.push(("t", b(*real_target)));
                }
                other => {
                    o.push(("k", J::s("other")));
                    o.push(("s", J::s(format!("{other:?}"))));
                }
            }
            o.push(("sp", sp));
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", J::O(o)),
                ("cl", J::B(data.is_cleanup)),
            ]));
        }
        vec![
            ("argc", J::i(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) {
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], adts: HashMap::new(), adt_out: vec![], mono: false, work: vec![], seen: HashMap::new(), swork: vec![], stdmode: false };
    let mut fns = vec![];
    let ev = tcx.effective_visibilities(());
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| key(tcx, k.to_def_id()));
    let meta = |cx: &mut Cx<'tcx>, ld: rustc_hir::def_id::LocalDefId, id: String| -> Vec<(&'static str, J)> {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", J::s(id)),
            ("key", J::s(key(tcx, d))),
            ("path", J::s(path(tcx, d))),
            ("kind", J::s(format!("{dk:?}"))),
            ("pub", J::B(ev.is_reachable(ld))),
            ("span", cx.span(tcx.def_span(d))),
        ];
        if let Some(n) = tcx.opt_item_name(d) {
            o.push(("name", J::s(n.to_string())));
        }
        let parent = tcx.parent(d);
        o.push(("parent", J::s(key(tcx, parent))));
        if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
            let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
            let sti = cx.ty(st);
            o.push(("self", J::i(sti)));
            if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", J::s(path(tcx, tr.def_id))));
                o.push(("traitref", J::s(with_no_trimmed_paths!(format!("{tr}")))));
                let ta = tr.args.types().map(|x| J::i(cx.ty(x))).collect();
                o.push(("targs", J::A(ta)));
            }
            o.push(("derived", J::B(tcx.is_automatically_derived(parent))));
        } else if matches!(tcx.def_kind(parent), DefKind::Trait { .. }) {
            o.push(("intrait", J::s(path(tcx, parent))));
        }
        o
    };
    // roots: every fn without type parameters, then everything they instantiate
    for &ld in &keys {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) && !tcx.generics_of(d).requires_monomorphization(tcx) {
            let i = Instance::mono(tcx, d);
            cx.push_inst(i);
        }
    }
    let mut done: std::collections::HashSet<DefId> = Default::default();
    cx.mono = true;
    while let Some(i) = cx.work.pop() {
        let d = i.def_id();
        done.insert(d);
        if std::env::var("SXTRACE").is_ok() { eprintln!("{} {}", fns.len(), cx.seen[&i]); }
        let env = ty::TypingEnv::fully_monomorphized();
        let body = tcx.optimized_mir(d);
        let mb = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body.clone()));
        let id = cx.seen[&i].clone();
        let mut o = meta(&mut cx, d.expect_local(), id);
        o.push(("mono", J::B(true)));
        o.extend(cx.body(env, &mb));
        let mut proms = vec![];
        for pb in tcx.promoted_mir(d).iter() {
            let pb = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, pb.clone()));
            let v = cx.body(env, &pb);
            proms.push(J::O(v));
        }
        o.push(("promoted", J::A(proms)));
        fns.push(J::O(o));
    }
    // the standard library's own code, as far as the crate instantiates it
    let mut sfns = vec![];
    cx.stdmode = true;
    while let Some(i) = cx.swork.pop() {
        let d = i.def_id();
        if sfns.len() > 20000 { break; }
        let env = ty::TypingEnv::fully_monomorphized();
        let body = tcx.optimized_mir(d);
        let Ok(mb) = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body.clone())) else { continue };
        let id = cx.seen[&i].clone();
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", J::s(id)),
            ("key", J::s(key(tcx, d))),
            ("path", J::s(path(tcx, d))),
            ("kind", J::s(format!("{:?}", tcx.def_kind(d)))),
            ("pub", J::B(false)),
            ("span", cx.span(tcx.def_span(d))),
            ("parent", J::s(key(tcx, tcx.parent(d)))),
            ("derived", J::B(false)),
            ("mono", J::B(true)),
        ];
        o.extend(cx.body(env, &mb));
        let mut proms = vec![];
        for pb in tcx.promoted_mir(d).iter() {
            if let Ok(pb) = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, pb.clone())) {
                let v = cx.body(env, &pb);
                proms.push(J::O(v));
            }
        }
        o.push(("promoted", J::A(proms)));
        sfns.push(J::O(o));
    }
    cx.stdmode = false;
    cx.mono = false;
    for &ld in &keys {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        let is_fn = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let is_const = matches!(
            dk,
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }
        );
        if (!is_fn && !is_const) || done.contains(&d) {
            continue;
        }
        let env = ty::TypingEnv::post_analysis(tcx, d);
        let body: &Body<'_> = if is_fn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(ld) };
        let mut o = meta(&mut cx, ld, key(tcx, d));
        o.push(("mono", J::B(false)));
        o.extend(cx.body(env, body));
        let mut proms = vec![];
        for pb in tcx.promoted_mir(d).iter() {
            let v = cx.body(env, pb);
            proms.push(J::O(v));
        }
        o.push(("promoted", J::A(proms)));
        fns.push(J::O(o));
    }
    // trait impls of local traits/types
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) {
            continue;
        }
        let Some(tr) = tcx.impl_opt_trait_ref(d) else { continue };
        let tr = tr.instantiate_identity().skip_norm_wip();
        let st = cx.ty(tr.self_ty());
        let mut items = vec![];
        for it in tcx.associated_items(d).in_definition_order() {
            items.push(J::A(vec![J::s(it.opt_name().map(|x| x.to_string()).unwrap_or_default()), J::s(key(tcx, it.def_id))]));
        }
        let ta = tr.args.types().map(|x| J::i(cx.ty(x))).collect();
        impls.push(J::O(vec![
            ("trait", J::s(path(tcx, tr.def_id))),
            ("self", J::i(st)),
            ("targs", J::A(ta)),
            ("items", J::A(items)),
            ("derived", J::B(tcx.is_automatically_derived(d))),
        ]));
    }
    // every field type of every seen ADT is in the table already (recursively).
    let out = J::O(vec![
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("fns", J::A(fns)),
        ("types", J::A(cx.ty_out)),
        ("adts", J::A(cx.adt_out)),
        ("impls", J::A(impls)),
    ]);
    let mut s = String::new();
    out.write(&mut s);
    let is_bin = tcx.crate_types().iter().any(|t| format!("{t:?}").contains("Executable"));
    let name = format!("{}{}.json", tcx.crate_name(LOCAL_CRATE), if is_bin { "-bin" } else { "" });
    let dir = std::env::var("SXFACTS_OUT").unwrap();
    std::fs::write(format!("{dir}/{name}"), s).unwrap();
    let mut s = String::new();
    J::A(sfns).write(&mut s);
    std::fs::write(format!("{dir}/std-{name}"), s).unwrap();
}
