//! ppfacts: a rustc driver that dumps facts about the type-checked program.
//!
//! Used in two ways:
//! * as RUSTC_WRAPPER under cargo: passes through to the compiler, and for crates
//!   named in PPF_CRATES also writes PPF_OUT/<crate>.json;
//! * directly on a witness crate, with PPF_CRATES/PPF_OUT set the same way.
//!
//! It only reports; the rules are applied by /verif/pv (Python).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
use json::*;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, HashSet, VecDeque};

struct Cb {
    out: Option<String>,
    full: bool,
}

impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        if self.out.is_some() {
            c.opts.unstable_opts.mir_opt_level = Some(0);
            c.opts.unstable_opts.always_encode_mir = true;
            c.opts.unstable_opts.inline_mir = Some(false);
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(p) = &self.out {
            let mut o = String::new();
            Cx { tcx, queue: Default::default(), seen: Default::default(), full: self.full }.crate_facts().write(&mut o);
            std::fs::write(p, o).unwrap();
        }
        Compilation::Continue
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
    full: bool,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        // The source position that is ultimately responsible (macro call site).
        let root = sp.source_callsite();
        s(self.tcx.sess.source_map().span_to_diagnostic_string(root))
    }
    fn region(&self, r: ty::Region<'tcx>) -> J {
        s(format!("{r}"))
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(a.iter()
            .map(|g| match g.kind() {
                ty::GenericArgKind::Type(t) => self.ty(t),
                ty::GenericArgKind::Lifetime(r) => J::O(vec![("k", s("region")), ("r", self.region(r))]),
                _ => J::O(vec![("k", s("const")), ("s", s(format!("{g:?}")))]),
            })
            .collect())
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Adt(d, a) => J::O(vec![("k", s("adt")), ("path", s(self.path(d.did()))), ("args", self.args(a))]),
            ty::Ref(r, u, m) => J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("r", self.region(*r)), ("ty", self.ty(*u))]),
            ty::RawPtr(u, m) => J::O(vec![("k", s("raw")), ("mut", J::B(m.is_mut())), ("ty", self.ty(*u))]),
            ty::Tuple(ts) => J::O(vec![("k", s("tuple")), ("args", J::A(ts.iter().map(|t| self.ty(t)).collect()))]),
            ty::Param(p) => J::O(vec![("k", s("param")), ("name", s(p.name.to_string()))]),
            ty::Array(u, n) => J::O(vec![("k", s("array")), ("ty", self.ty(*u)), ("n", s(format!("{n:?}")))]),
            ty::Slice(u) => J::O(vec![("k", s("slice")), ("ty", self.ty(*u))]),
            ty::FnDef(d, _) => J::O(vec![("k", s("fndef")), ("path", s(self.path(*d)))]),
            ty::Closure(d, _) => J::O(vec![("k", s("closure")), ("path", s(self.path(*d)))]),
            _ => J::O(vec![("k", s("other")), ("s", s(format!("{t:?}")))]),
        }
    }
    fn vis(&self, v: ty::Visibility<rustc_hir::def_id::ModId>) -> J {
        match v {
            ty::Visibility::Public => s("pub"),
            ty::Visibility::Restricted(d) => s(format!("in {}", self.path(d.to_def_id()))),
        }
    }
    fn preds(&self, d: DefId) -> J {
        let p = self.tcx.clauses_of(d).instantiate_identity(self.tcx);
        let mut v: Vec<String> = p.clauses.iter().map(|c| format!("{:?}", c.clone().skip_norm_wip())).collect();
        v.sort();
        J::A(v.into_iter().map(J::S).collect())
    }
    fn generics(&self, d: DefId) -> J {
        let mut out = vec![];
        let mut cur = Some(d);
        let mut chain = vec![];
        while let Some(c) = cur {
            let g = self.tcx.generics_of(c);
            chain.push(g);
            cur = g.parent;
        }
        for g in chain.into_iter().rev() {
            for p in &g.own_params {
                let k = match p.kind {
                    ty::GenericParamDefKind::Lifetime => "lifetime",
                    ty::GenericParamDefKind::Type { .. } => "type",
                    ty::GenericParamDefKind::Const { .. } => "const",
                };
                out.push(J::A(vec![s(k), s(p.name.to_string())]));
            }
        }
        J::A(out)
    }

    // ---------------------------------------------------------------- MIR
    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let _ = body;
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => J::O(vec![("f", i(f.as_usize()))]),
                ProjectionElem::Downcast(_, x) => J::O(vec![("v", i(x.as_usize()))]),
                ProjectionElem::Index(l) => J::O(vec![("ix", i(l.as_usize()))]),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::PhantomDeref => J::O(vec![("noop", J::B(true))]),
                other => J::O(vec![("other", s(format!("{other:?}")))]),
            });
        }
        J::A(vec![i(p.local.as_usize()), J::A(v)])
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.path(d))), ("crate", s(tcx.crate_name(d.krate).to_string())), ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default()))];
        let parent = tcx.opt_parent(d);
        if let Some(p) = parent {
            if tcx.def_kind(p) == (DefKind::Impl { of_trait: false }) || tcx.def_kind(p) == (DefKind::Impl { of_trait: true }) {
                let st = tcx.type_of(p).instantiate_identity();
                let st = norm_skip(st);
                o.push(("impl_self", self.ty(st)));
                if let Some(tr) = tcx.impl_opt_trait_id(p) {
                    o.push(("trait", s(self.path(tr))));
                }
            } else if tcx.def_kind(p) == DefKind::Trait {
                o.push(("trait", s(self.path(p))));
            }
        }
        if tcx.def_kind(d).is_fn_like() {
            o.push(("unsafe", J::B(norm_sig(tcx.fn_sig(d).instantiate_identity()).safety().is_unsafe())));
        }
        o.push(("args", self.args(args)));
        let mut target = d;
        if !args.has_escaping_bound_vars() {
            let args_e = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args_e) {
                if let ty::InstanceKind::Item(r) = inst.def {
                    target = r;
                    if r != d {
                        o.push(("resolved", s(self.path(r))));
                    }
                }
            }
        }
        let kr = tcx.crate_name(target.krate).to_string();
        if self.full && (target.is_local() || kr == "pin_project" || kr == "core" || kr == "alloc") && !self.seen.contains(&target) {
            self.seen.insert(target);
            self.queue.push_back(target);
        }
        J::O(o)
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            let callee = self.callee(*d, a, env);
            return J::O(vec![("fn", callee)]);
        }
        let val = c.const_.try_eval_bits(self.tcx, env).map(|b| J::I(b as i128)).unwrap_or(J::Null);
        let mut o = vec![("const", s(format!("{}", c.const_))), ("bits", val), ("ty", self.ty(t))];
        if let rustc_middle::mir::Const::Unevaluated(uv, _) = c.const_ {
            o.push(("def", s(self.path(uv.def))));
            match uv.promoted {
                Some(p) => o.push(("promoted", i(p.as_usize()))),
                None => o.push(("args", self.args(uv.args))),
            }
        }
        if let Some(d) = c.check_static_ptr(self.tcx) {
            o.push(("static", s(self.path(d))));
        }
        J::O(o)
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("copy", self.place(body, *p))]),
            Operand::Move(p) => J::O(vec![("move", self.place(body, *p))]),
            Operand::Constant(c) => self.constant(c, env),
            Operand::RuntimeChecks(r) => J::O(vec![("rtcheck", s(format!("{r:?}")))]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::O(vec![("use", self.operand(body, o, env))]),
            Rvalue::Ref(_, k, p) => J::O(vec![
                ("ref", self.place(body, *p)),
                ("kind", s(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                })),
            ]),
            Rvalue::RawPtr(k, p) => J::O(vec![("ref", self.place(body, *p)), ("kind", s(format!("raw{k:?}")))]),
            Rvalue::Reborrow(t, m, p) => {
                let t = *t;
                J::O(vec![("reborrow", self.place(body, *p)), ("mut", J::B(m.is_mut())), ("ty", self.ty(t))])
            }
            Rvalue::CopyForDeref(p) => J::O(vec![("use", J::O(vec![("copy", self.place(body, *p))]))]),
            Rvalue::Cast(k, o, t) => J::O(vec![("cast", self.operand(body, o, env)), ("kind", s(format!("{k:?}"))), ("ty", self.ty(*t))]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                J::O(vec![("discr", self.place(body, *p)), ("ty", self.ty(t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                let kind = match &**k {
                    AggregateKind::Adt(d, v, _, _, fld) => {
                        let def = self.tcx.adt_def(*d);
                        J::O(vec![
                            ("adt", s(self.path(*d))),
                            ("variant", i(v.as_usize())),
                            ("vname", s(def.variant(*v).name.to_string())),
                            ("enum", J::B(def.is_enum())),
                            ("union_field", fld.map(|f| i(f.as_usize())).unwrap_or(J::Null)),
                        ])
                    }
                    AggregateKind::Tuple => s("tuple"),
                    AggregateKind::Array(_) => s("array"),
                    AggregateKind::Closure(d, _) => J::O(vec![("closure", s(self.path(*d)))]),
                    o => s(format!("{o:?}")),
                };
                J::O(vec![("agg", kind), ("ops", J::A(ops))])
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(body, &ab.0, env);
                let b = self.operand(body, &ab.1, env);
                J::O(vec![("bin", s(format!("{op:?}"))), ("ops", J::A(vec![a, b]))])
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.operand(body, a, env);
                J::O(vec![("un", s(format!("{op:?}"))), ("ops", J::A(vec![a]))])
            }
            Rvalue::Repeat(o, n) => {
                let a = self.operand(body, o, env);
                J::O(vec![("repeat", a), ("n", s(format!("{n:?}")))])
            }
            Rvalue::ThreadLocalRef(d) => J::O(vec![("tls", s(self.path(*d)))]),
            other => J::O(vec![("other", s(format!("{other:?}")))]),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => s("continue"),
            UnwindAction::Unreachable => s("unreachable"),
            UnwindAction::Terminate(_) => s("terminate"),
            UnwindAction::Cleanup(b) => i(b.as_usize()),
        }
    }
    fn body(&mut self, d: DefId) -> Option<J> {
        let tcx = self.tcx;
        if !tcx.is_mir_available(d) || tcx.is_constructor(d) {
            return None;
        }
        let body = if tcx.def_kind(d).is_fn_like() || tcx.is_closure_like(d) {
            tcx.optimized_mir(d)
        } else {
            tcx.mir_for_ctfe(d)
        };
        let env = ty::TypingEnv::post_analysis(tcx, d);
        let mut out = self.mir(body, env);
        if d.is_local() && (tcx.def_kind(d).is_fn_like() || tcx.is_closure_like(d)) {
            let ps: Vec<J> = tcx.promoted_mir(d).iter().map(|b| J::O(self.mir(b, env))).collect();
            if !ps.is_empty() {
                out.push(("promoted", J::A(ps)));
            }
        }
        Some(J::O(out))
    }
    fn mir(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, x)| {
                let mut o = vec![("ty", self.ty(x.ty))];
                if let Some(n) = names.get(&l.as_usize()) {
                    o.push(("name", s(n.clone())));
                }
                J::O(o)
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(body, pr.0);
                        let r = self.rvalue(body, &pr.1, env);
                        st.push(J::O(vec![("assign", p), ("rv", r)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::O(vec![("setdiscr", self.place(body, **place)), ("v", i(variant_index.as_usize()))]));
                    }
                    StatementKind::Intrinsic(k) => match &**k {
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(body, &c.src, env);
                            let b = self.operand(body, &c.dst, env);
                            let n = self.operand(body, &c.count, env);
                            st.push(J::O(vec![("copynonoverlapping", J::A(vec![a, b, n]))]));
                        }
                        NonDivergingIntrinsic::Assume(_) => {}
                    },
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let mut t = match &term.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("t", i(target.as_usize()))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dj = self.operand(body, discr, env);
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), i(b.as_usize())])).collect();
                    let dty = discr.ty(&body.local_decls, self.tcx);
                    vec![("k", s("switch")), ("d", dj), ("targets", J::A(v)), ("otherwise", i(targets.otherwise().as_usize())), ("ty", self.ty(dty))]
                }
                TerminatorKind::Return => vec![("k", s("return"))],
                TerminatorKind::UnwindResume => vec![("k", s("resume"))],
                TerminatorKind::UnwindTerminate(_) => vec![("k", s("terminate"))],
                TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pty = place.ty(&body.local_decls, self.tcx).ty;
                    vec![("k", s("drop")), ("p", self.place(body, *place)), ("ty", self.ty(pty)), ("t", i(target.as_usize())), ("u", self.unwind(unwind))]
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(body, func, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(body, &x.node, env)).collect();
                    vec![("k", s("call")), ("f", f), ("a", J::A(a)), ("dest", self.place(body, *destination)), ("t", target.map(|b| i(b.as_usize())).unwrap_or(J::Null)), ("u", self.unwind(unwind))]
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(body, cond, env);
                    vec![("k", s("assert")), ("c", c), ("expected", J::B(*expected)), ("msg", s(format!("{msg:?}"))), ("t", i(target.as_usize())), ("u", self.unwind(unwind))]
                }
                o => vec![("k", s("other")), ("s", s(format!("{o:?}")))],
            };
            t.push(("sp", sp));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(t)), ("cleanup", J::B(bb.is_cleanup))]));
        }
        vec![("argc", i(body.arg_count)), ("locals", J::A(locals)), ("blocks", J::A(blocks))]
    }

    /// The variants and fields of an ADT at the given generic arguments.
    fn adt_inst(&self, def: ty::AdtDef<'tcx>, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let vs = def
            .variants()
            .iter()
            .map(|v| {
                let fs = v
                    .fields
                    .iter()
                    .map(|f| J::O(vec![("name", s(f.name.to_string())), ("vis", self.vis(f.vis)), ("ty", self.ty(norm_skip(f.ty(tcx, args))))]))
                    .collect();
                J::O(vec![("name", s(v.name.to_string())), ("ctor", s(format!("{:?}", v.ctor_kind()))), ("fields", J::A(fs))])
            })
            .collect();
        J::O(vec![("path", s(self.path(def.did()))), ("enum", J::B(def.is_enum())), ("args", self.args(args)), ("variants", J::A(vs))])
    }
    fn attrs_of(&self, d: DefId) -> J {
        let Some(ld) = d.as_local() else { return J::Null };
        let mut v: Vec<String> = self
            .tcx
            .hir_attrs(self.tcx.local_def_id_to_hir_id(ld))
            .iter()
            .map(|a| strip_spans(&format!("{a:?}")))
            .collect();
        v.sort();
        J::A(v.into_iter().map(J::S).collect())
    }

    fn fn_facts(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.path(d))), ("crate", s(tcx.crate_name(d.krate).to_string())), ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())), ("span", self.span(tcx.def_span(d)))];
        if tcx.def_kind(d).is_fn_like() && !tcx.is_closure_like(d) {
            let sig = norm_sig(tcx.fn_sig(d).instantiate_identity());
            let sg = sig.skip_binder();
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            o.push(("inputs", J::A(sg.inputs().iter().map(|t| self.ty(*t)).collect())));
            o.push(("output", self.ty(sg.output())));
            o.push(("generics", self.generics(d)));
            o.push(("preds", self.preds(d)));
            let late: Vec<J> = sig.bound_vars().iter().map(|b| s(format!("{b:?}"))).collect();
            o.push(("late", J::A(late)));
            o.push(("vis", self.vis(tcx.visibility(d))));
            if let ty::Adt(def, args) = sg.output().kind() {
                if def.did().is_local() {
                    o.push(("ret_inst", self.adt_inst(*def, args)));
                }
            }
            if let Some(mut t) = sg.inputs().first().copied() {
                // Pin<&mut T> / &mut T / T
                loop {
                    match t.kind() {
                        ty::Ref(_, u, _) => t = *u,
                        ty::Adt(def, a) if self.path(def.did()) == "core::pin::Pin" => t = a.type_at(0),
                        _ => break,
                    }
                }
                if let ty::Adt(def, args) = t.kind() {
                    if def.did().is_local() {
                        o.push(("self_inst", self.adt_inst(*def, args)));
                    }
                }
            }
            if let Some(p) = tcx.opt_parent(d) {
                o.push(("parent", s(self.path(p))));
                o.push(("parent_kind", s(format!("{:?}", tcx.def_kind(p)))));
                if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                    o.push(("impl_self", self.ty(norm_skip(tcx.type_of(p).instantiate_identity()))));
                    if let Some(tr) = tcx.impl_opt_trait_id(p) {
                        o.push(("trait", s(self.path(tr))));
                    }
                }
            }
        }
        o.push(("body", self.body(d).unwrap_or(J::Null)));
        J::O(o)
    }

    fn lang(&self, path: &str) -> Option<DefId> {
        // find a trait by absolute path through the crates in the dependency graph
        let tcx = self.tcx;
        for t in tcx.all_traits_including_private() {
            if self.path(t) == path {
                return Some(t);
            }
        }
        None
    }

    fn crate_facts(mut self) -> J {
        let tcx = self.tcx;
        let mut adts = vec![];
        let mut impls = vec![];
        let mut fns = vec![];
        let mut closures = vec![];
        let mut items = vec![];
        let mut queries = vec![];
        let mut statics = vec![];
        let traits: Vec<(&'static str, Option<DefId>)> = vec![
            ("Unpin", self.lang("core::marker::Unpin")),
            ("Send", self.lang("core::marker::Send")),
            ("Sync", self.lang("core::marker::Sync")),
            ("Copy", self.lang("core::marker::Copy")),
            ("Clone", self.lang("core::clone::Clone")),
            ("Drop", self.lang("core::ops::drop::Drop")),
            ("UnwindSafe", self.lang("core::panic::unwind_safe::UnwindSafe")),
            ("RefUnwindSafe", self.lang("core::panic::unwind_safe::RefUnwindSafe")),
            ("UnsafeUnpin", self.lang("pin_project::UnsafeUnpin")),
            ("PinnedDrop", self.lang("pin_project::__private::PinnedDrop")),
        ];
        let mut defs: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        // closures are not among the items
        for ld in tcx.hir_body_owners() {
            if tcx.is_closure_like(ld.to_def_id()) && !defs.contains(&ld) {
                defs.push(ld);
            }
        }
        for ld in defs {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            match k {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let env = ty::TypingEnv::post_analysis(tcx, d);
                    let vs: Vec<J> = def
                        .variants()
                        .iter()
                        .map(|v| {
                            let fs: Vec<J> = v
                                .fields
                                .iter()
                                .map(|f| {
                                    let t = norm_skip(tcx.type_of(f.did).instantiate_identity());
                                    J::O(vec![("name", s(f.name.to_string())), ("vis", self.vis(f.vis)), ("ty", self.ty(t)), ("needs_drop", J::B(t.needs_drop(tcx, env))), ("attrs", self.attrs_of(f.did))])
                                })
                                .collect();
                            J::O(vec![("name", s(v.name.to_string())), ("ctor", s(format!("{:?}", v.ctor_kind()))), ("discr", s(format!("{:?}", v.discr))), ("attrs", self.attrs_of(v.def_id)), ("fields", J::A(fs))])
                        })
                        .collect();
                    adts.push(J::O(vec![
                        ("path", s(self.path(d))),
                        ("name", s(tcx.item_name(d).to_string())),
                        ("kind", s(format!("{k:?}"))),
                        ("vis", self.vis(tcx.visibility(d))),
                        ("generics", self.generics(d)),
                        ("preds", self.preds(d)),
                        ("repr", s(format!("packed={:?} align={:?} c={} int={:?} transparent={}", def.repr().pack, def.repr().align, def.repr().c(), def.repr().int, def.repr().transparent()))),
                        ("parent", s(self.path(tcx.parent(d)))),
                        ("parent_kind", s(format!("{:?}", tcx.def_kind(tcx.parent(d))))),
                        ("variants", J::A(vs)),
                        ("span", self.span(tcx.def_span(d))),
                        ("attrs", self.attrs_of(d)),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let st = norm_skip(tcx.type_of(d).instantiate_identity());
                    let mut o = vec![
                        ("path", s(self.path(d))),
                        ("self", self.ty(st)),
                        ("generics", self.generics(d)),
                        ("preds", self.preds(d)),
                        ("items", J::A(tcx.associated_item_def_ids(d).iter().map(|x| s(tcx.opt_item_name(*x).map(|x| x.to_string()).unwrap_or_default())).collect())),
                        ("span", self.span(tcx.def_span(d))),
                    ];
                    if of_trait {
                        let h = tcx.impl_trait_header(d);
                        let tr = norm_tr(h.trait_ref.instantiate_identity());
                        o.push(("trait", s(self.path(tr.def_id))));
                        o.push(("trait_args", self.args(tr.args)));
                        o.push(("polarity", s(format!("{:?}", h.polarity))));
                        o.push(("unsafe", J::B(h.safety.is_unsafe())));
                    }
                    impls.push(J::O(o));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    if !self.seen.contains(&d) {
                        self.seen.insert(d);
                    }
                    let f = self.fn_facts(d);
                    fns.push(f);
                    let name = tcx.item_name(d).to_string();
                    if name.starts_with("q_") {
                        // trait query: which marker traits does the type of each argument implement,
                        // under the where clauses of this function?
                        let sig = tcx.fn_sig(d).instantiate_identity();
                        let sig = norm_sig(sig);
                        let sig = tcx.liberate_late_bound_regions(d, sig);
                        let penv = tcx.param_env(d);
                        let tenv = ty::TypingEnv::post_analysis(tcx, d);
                        let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                        let mut res = vec![];
                        for &a in sig.inputs() {
                            let t = if let ty::RawPtr(u, _) = a.kind() { *u } else { a };
                            let mut ans = vec![];
                            for (n, td) in &traits {
                                let v = match td {
                                    None => "no-trait",
                                    Some(td) => {
                                        let r = infcx.type_implements_trait(*td, [t], penv);
                                        if r.must_apply_modulo_regions() {
                                            "yes"
                                        } else if r.may_apply() {
                                            "maybe"
                                        } else {
                                            "no"
                                        }
                                    }
                                };
                                ans.push((*n, s(v)));
                            }
                            ans.push(("needs_drop", J::B(t.needs_drop(tcx, tenv))));
                            let lay = tcx.erase_and_anonymize_regions(t);
                            ans.push(("layout", match tcx.layout_of(tenv.as_query_input(lay)) {
                                Ok(l) if !lay.has_param() => s(format!("{:?}", l.layout)),
                                _ => J::Null,
                            }));
                            ans.push(("ty", self.ty(t)));
                            res.push(J::O(ans));
                        }
                        queries.push(J::O(vec![("path", s(self.path(d))), ("res", J::A(res))]));
                    }
                }
                DefKind::Closure => {
                    if !self.seen.contains(&d) {
                        self.seen.insert(d);
                        let f = self.fn_facts(d);
                        closures.push(f);
                    }
                }
                DefKind::Static { mutability, .. } => {
                    let t = norm_skip(tcx.type_of(d).instantiate_identity());
                    let freeze = t.is_freeze(tcx, ty::TypingEnv::post_analysis(tcx, d));
                    statics.push(J::O(vec![("path", s(self.path(d))), ("mut", J::B(mutability.is_mut())), ("freeze", J::B(freeze)), ("ty", self.ty(t)), ("span", self.span(tcx.def_span(d)))]));
                }
                _ => {}
            }
            if matches!(
                k,
                DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::Fn | DefKind::Trait | DefKind::TyAlias | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::Mod | DefKind::Macro(_) | DefKind::TraitAlias | DefKind::Use | DefKind::ExternCrate
            ) {
                let p = tcx.opt_parent(d);
                items.push(J::O(vec![
                    ("path", s(self.path(d))),
                    ("name", tcx.opt_item_name(d).map(|x| s(x.to_string())).unwrap_or(J::Null)),
                    ("kind", s(format!("{k:?}"))),
                    ("vis", if matches!(k, DefKind::Macro(_)) { J::Null } else { self.vis(tcx.visibility(d)) }),
                    ("unsafe", J::B(k == DefKind::Trait && tcx.trait_def(d).safety.is_unsafe())),
                    ("parent", p.map(|p| s(self.path(p))).unwrap_or(J::Null)),
                    ("parent_kind", p.map(|p| s(format!("{:?}", tcx.def_kind(p)))).unwrap_or(J::Null)),
                ]));
            }
        }
        // callees outside this crate (pin_project, core), transitively, and nested bodies
        let mut ext = vec![];
        let mut budget = 400;
        while let Some(d) = self.queue.pop_front() {
            if budget == 0 {
                break;
            }
            if d.is_local() {
                continue;
            }
            budget -= 1;
            let f = self.fn_facts(d);
            ext.push(f);
        }
        // Drop impls of types of pin_project, so that drop glue can be followed
        let mut dropimpls = vec![];
        if let Some((_, Some(dt))) = traits.iter().find(|x| x.0 == "Drop") {
            for imp in tcx.all_impls(*dt) {
                let kr = tcx.crate_name(imp.krate).to_string();
                if imp.is_local() || kr == "pin_project" {
                    let st = norm_skip(tcx.type_of(imp).instantiate_identity());
                    let f = tcx.associated_item_def_ids(imp)[0];
                    let body = if imp.is_local() { s(self.path(f)) } else { let x = self.fn_facts(f); ext.push(x); s(self.path(f)) };
                    dropimpls.push(J::O(vec![("self", self.ty(st)), ("fn", body)]));
                }
            }
            while let Some(d) = self.queue.pop_front() {
                if !d.is_local() && budget > 0 {
                    budget -= 1;
                    let f = self.fn_facts(d);
                    ext.push(f);
                }
            }
        }
        J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("fns", J::A(fns)),
            ("closures", J::A(closures)),
            ("ext", J::A(ext)),
            ("drops", J::A(dropimpls)),
            ("items", J::A(items)),
            ("queries", J::A(queries)),
            ("statics", J::A(statics)),
        ])
    }
}

fn strip_spans(t: &str) -> String {
    // remove `path:line:col: line:col (#n)` so that twins compare equal
    let mut out = String::new();
    for w in t.split_inclusive(|c: char| c == ' ' || c == ',' || c == '(' || c == '[') {
        if w.contains(".rs:") || w.trim_end_matches([',', ')', ']', '}']).chars().all(|c| c.is_ascii_digit() || c == ':') || w.starts_with('#') {
            continue;
        }
        out.push_str(w);
    }
    out
}

fn norm_skip<'tcx>(t: ty::Unnormalized<'tcx, Ty<'tcx>>) -> Ty<'tcx> {
    t.skip_norm_wip()
}
fn norm_sig<'tcx>(t: ty::Unnormalized<'tcx, ty::PolyFnSig<'tcx>>) -> ty::PolyFnSig<'tcx> {
    t.skip_norm_wip()
}
fn norm_tr<'tcx>(t: ty::Unnormalized<'tcx, ty::TraitRef<'tcx>>) -> ty::TraitRef<'tcx> {
    t.skip_norm_wip()
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("/rustc")) {
        args.remove(1);
    }
    if !args.iter().any(|a| a == "--sysroot") {
        args.push("--sysroot".into());
        args.push(env!("PPF_SYSROOT").into());
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|k| args.get(k + 1)).cloned().unwrap_or_default();
    let want = std::env::var("PPF_CRATES").unwrap_or_default();
    let printing = args.iter().any(|a| a.starts_with("--print") || a == "-vV");
    let out = if !printing && want.split(',').any(|w| w == name) {
        std::env::var("PPF_OUT").ok().map(|o| format!("{o}/{name}.json"))
    } else {
        None
    };
    let full = std::env::var("PPF_FULL").is_ok();
    let mut cb = Cb { out, full };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
