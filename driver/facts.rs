use crate::{n, s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::LOCAL_CRATE;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, visit::Visitor, *};
use rustc_middle::ty::{self, GenericArgs, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::{sym, Span, Symbol};
use rustc_trait_selection::infer::InferCtxtExt;

struct Scan<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    unsafes: Vec<J>,
    calls: Vec<J>,
    asm: Vec<J>,
}

fn at(tcx: TyCtxt<'_>, sp: Span) -> J {
    let sm = tcx.sess.source_map();
    let sp = sp.source_callsite();
    let l = sm.lookup_char_pos(sp.lo());
    s(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
}

impl<'a, 'tcx> Scan<'a, 'tcx> {
    fn note(&mut self, what: &str, sp: Span) {
        let w = at(self.tcx, sp);
        self.unsafes.push(J::A(vec![s(what), w]));
    }
}

impl<'a, 'tcx> Visitor<'tcx> for Scan<'a, 'tcx> {
    fn visit_terminator(&mut self, t: &Terminator<'tcx>, loc: Location) {
        if let TerminatorKind::Call { func, .. } | TerminatorKind::TailCall { func, .. } = &t.kind {
            let ty = func.ty(self.body, self.tcx);
            match ty.kind() {
                TyKind::FnDef(d, args) => {
                    let tcx = self.tcx;
                    let env = TypingEnv::post_analysis(tcx, self.body.source.def_id());
                    let r = ty::Instance::try_resolve(tcx, env, *d, tcx.erase_and_anonymize_regions(args.skip_binder())).ok().flatten();
                    let rd = r.map(|i| i.def_id()).unwrap_or(*d);
                    let foreign = tcx.is_foreign_item(*d);
                    self.calls.push(J::A(vec![
                        s(tcx.def_path_str(*d)),
                        s(tcx.def_path_str(rd)),
                        s(tcx.crate_name(rd.krate).to_string()),
                        J::B(foreign),
                        at(tcx, t.source_info.span),
                    ]));
                    if !ty.fn_sig(tcx).safety().is_safe() {
                        let p = tcx.def_path_str(*d);
                        self.note(&format!("call of {}", p), t.source_info.span);
                    }
                }
                TyKind::FnPtr(..) => {
                    if !ty.fn_sig(self.tcx).safety().is_safe() {
                        self.note("call of an unsafe function pointer", t.source_info.span);
                    }
                }
                _ => {}
            }
        }
        if let TerminatorKind::InlineAsm { .. } = &t.kind {
            self.asm.push(at(self.tcx, t.source_info.span));
        }
        self.super_terminator(t, loc);
    }
    fn visit_place(&mut self, p: &Place<'tcx>, c: mir::visit::PlaceContext, loc: Location) {
        let mut t = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        let sp = self.body.source_info(loc).span;
        for e in p.projection.iter() {
            if let ProjectionElem::Deref = e {
                if t.ty.is_raw_ptr() {
                    // statics are reached through a raw pointer or a reference that the compiler makes
                    self.note("dereference of a raw pointer", sp);
                }
            }
            if let ProjectionElem::Field(..) = e {
                if t.ty.is_union() {
                    self.note("access to a field of a union", sp);
                }
            }
            t = t.projection_ty(self.tcx, e);
        }
        self.super_place(p, c, loc);
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, loc: Location) {
        if let Rvalue::Cast(CastKind::Transmute, ..) = r {
            let sp = self.body.source_info(loc).span;
            self.note("transmute", sp);
        }
        self.super_rvalue(r, loc);
    }
}

fn instantiate<'tcx>(tcx: TyCtxt<'tcx>, d: rustc_hir::def_id::DefId) -> Ty<'tcx> {
    let args = GenericArgs::for_item(tcx, d, |p, _| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_static.into(),
        ty::GenericParamDefKind::Type { .. } => tcx.types.u8.into(),
        ty::GenericParamDefKind::Const { .. } => {
            let t = tcx.type_of(p.def_id).instantiate_identity().skip_norm_wip();
            if t.is_bool() {
                ty::Const::from_bool(tcx, true).into()
            } else {
                ty::Const::from_target_usize(tcx, 3).into()
            }
        }
    });
    tcx.type_of(d).instantiate(tcx, args).skip_norm_wip()
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut o = String::new();
    let mut bodies = vec![];
    for def in tcx.hir_body_owners() {
        let d = def.to_def_id();
        let kind = tcx.def_kind(d);
        let body: &Body<'_> = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
            DefKind::Ctor(..) => continue,
            _ => tcx.mir_for_ctfe(d),
        };
        let mut v = Scan { tcx, body, unsafes: vec![], calls: vec![], asm: vec![] };
        v.visit_body(body);
        bodies.push(J::O(vec![
            ("path", s(tcx.def_path_str(d))),
            ("kind", s(format!("{:?}", kind))),
            ("at", at(tcx, tcx.def_span(d))),
            ("unsafe", J::A(v.unsafes)),
            ("calls", J::A(v.calls)),
            ("asm", J::A(v.asm)),
        ]));
    }
    let mut statics = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut externs = vec![];
    let get = |x: Symbol| tcx.get_diagnostic_item(x);
    let send = get(sym::Send);
    let sync = tcx.lang_items().sync_trait();
    let copy = tcx.lang_items().copy_trait();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::fully_monomorphized();
                statics.push(J::O(vec![
                    ("path", s(tcx.def_path_str(d))),
                    ("mut", J::B(mutability.is_mut())),
                    ("frozen", J::B(t.is_freeze(tcx, env))),
                    ("thread_local", J::B(tcx.is_thread_local_static(d))),
                    ("foreign", J::B(tcx.is_foreign_item(d))),
                    ("at", at(tcx, tcx.def_span(d))),
                ]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = instantiate(tcx, d);
                let env = TypingEnv::fully_monomorphized();
                let infcx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
                let has = |tr: Option<rustc_hir::def_id::DefId>| match tr {
                    Some(tr) => J::B(infcx.type_implements_trait(tr, [t], ty::ParamEnv::empty()).must_apply_modulo_regions()),
                    None => J::Null,
                };
                adts.push(J::O(vec![
                    ("path", s(tcx.def_path_str(d))),
                    ("public", J::B(tcx.effective_visibilities(()).is_exported(id))),
                    ("frozen", J::B(t.is_freeze(tcx, env))),
                    ("send", has(send)),
                    ("sync", has(sync)),
                    ("copy", has(copy)),
                    ("at", at(tcx, tcx.def_span(d))),
                ]));
            }
            DefKind::Impl { of_trait: true } => {
                let h = tcx.impl_trait_header(d);
                if !h.safety.is_safe() && !tcx.def_path_str(h.trait_ref.instantiate_identity().skip_norm_wip().def_id).ends_with("TrivialClone") {
                    impls.push(J::A(vec![s(format!("{}", h.trait_ref.instantiate_identity().skip_norm_wip())), at(tcx, tcx.def_span(d))]));
                }
            }
            DefKind::ForeignMod => externs.push(at(tcx, tcx.def_span(d))),
            _ => {}
        }
    }
    let crates: Vec<J> = tcx.crates(()).iter().map(|c| s(tcx.crate_name(*c).to_string())).collect();
    J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("crates", J::A(crates)),
        ("bodies", J::A(bodies)),
        ("statics", J::A(statics)),
        ("adts", J::A(adts)),
        ("unsafe_impls", J::A(impls)),
        ("externs", J::A(externs)),
        ("count", n(0)),
    ])
    .w(&mut o);
    std::fs::write(out, o).unwrap();
}
