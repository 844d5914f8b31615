// A rustc driver that dumps the resolved program as JSON:
//   mono  : the monomorphic MIR of everything reachable from the harness' entry functions
//   facts : facts about one crate (all bodies, unsafe operations, statics, callees, impls)
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_abi::{FieldIdx, VariantIdx};
use rustc_const_eval::const_eval::mk_eval_cx_for_const_val;
use rustc_const_eval::const_eval::CompileTimeInterpCx;
use rustc_const_eval::interpret::{OpTy, Projectable, Scalar};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use std::fmt::Write as _;

mod facts;

#[derive(Clone)]
pub enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
pub fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
pub fn n(x: usize) -> J {
    J::N(x as i128)
}
fn esc(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    pub fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => write!(o, "{x}").unwrap(),
            J::S(x) => esc(o, x),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}

pub struct Cx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    te: TypingEnv<'tcx>,
    types: Vec<J>,
    tymap: FxHashMap<Ty<'tcx>, usize>,
    queue: Vec<Instance<'tcx>>,
    seen: FxHashSet<Instance<'tcx>>,
    keys: FxHashMap<Instance<'tcx>, String>,
    keyset: FxHashSet<String>,
    statics: Vec<(String, J)>,
    statics_seen: FxHashSet<DefId>,
}

pub fn span_str(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    format!(
        "{}:{}",
        lo.file.name.prefer_local_unconditionally().to_string(),
        lo.line
    )
}

// Paths whose bodies are modelled by the analysis and not followed.
const PROVIDED: &[&str] = &[
    "fold", "try_fold", "rfold", "try_rfold", "for_each", "try_for_each", "all", "any", "find", "rfind", "find_map", "position", "rposition", "count", "last",
    "nth", "nth_back", "advance_by", "advance_back_by", "reduce", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key", "sum", "product",
];
const STOP: &[&str] = &["core::fmt", "core::panicking", "core::str::slice_error_fail", "core::slice::index::slice_index_fail"];

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, id);
        let tcx = self.tcx;
        let name = t.to_string();
        let j = match t.kind() {
            TyKind::Bool => vec![("k", s("bool"))],
            TyKind::Char => vec![("k", s("char"))],
            TyKind::Str => vec![("k", s("str"))],
            TyKind::Never => vec![("k", s("never"))],
            TyKind::Int(i) => vec![
                ("k", s("int")),
                ("bits", n(i.bit_width().unwrap_or(64) as usize)),
                ("signed", J::B(true)),
            ],
            TyKind::Uint(i) => vec![
                ("k", s("int")),
                ("bits", n(i.bit_width().unwrap_or(64) as usize)),
                ("signed", J::B(false)),
            ],
            TyKind::Tuple(ts) => {
                let f = ts.iter().map(|x| n(self.ty(x))).collect();
                vec![("k", s("tuple")), ("f", J::A(f))]
            }
            TyKind::Array(e, l) => {
                let l = l
                    .try_to_target_usize(tcx)
                    .map(|x| J::N(x as i128))
                    .unwrap_or(J::Null);
                vec![("k", s("array")), ("e", n(self.ty(*e))), ("len", l)]
            }
            TyKind::Slice(e) => vec![("k", s("slice")), ("e", n(self.ty(*e)))],
            TyKind::Ref(_, p, m) => vec![
                ("k", s("ref")),
                ("p", n(self.ty(*p))),
                ("mut", J::B(m.is_mut())),
            ],
            TyKind::RawPtr(p, m) => vec![
                ("k", s("ptr")),
                ("p", n(self.ty(*p))),
                ("mut", J::B(m.is_mut())),
            ],
            TyKind::Adt(d, args) => {
                let mut variants = vec![];
                let mut targs = vec![];
                for a in args.iter() {
                    if let Some(x) = a.as_type() {
                        targs.push(n(self.ty(x)));
                    } else if let Some(c) = a.as_const() {
                        targs.push(s(c.to_string()));
                    }
                }
                for (vi, v) in d.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args);
                        let ft = tcx
                            .try_normalize_erasing_regions(self.te, ft)
                            .unwrap_or(tcx.types.unit);
                        fs.push(J::A(vec![s(f.name.to_string()), n(self.ty(ft))]));
                    }
                    let discr = if d.is_enum() {
                        s(d.discriminant_for_variant(tcx, vi).val.to_string())
                    } else {
                        s("0")
                    };
                    variants.push(J::O(vec![
                        ("n", s(v.name.to_string())),
                        ("d", discr),
                        ("f", J::A(fs)),
                    ]));
                }
                let kind = if d.is_enum() {
                    "enum"
                } else if d.is_union() {
                    "union"
                } else {
                    "struct"
                };
                vec![
                    ("k", s("adt")),
                    ("adt", s(kind)),
                    ("path", s(tcx.def_path_str(d.did()))),
                    ("args", J::A(targs)),
                    ("v", J::A(variants)),
                ]
            }
            TyKind::Closure(d, args) => {
                let up = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| n(self.ty(x)))
                    .collect();
                vec![
                    ("k", s("closure")),
                    ("path", s(tcx.def_path_str(*d))),
                    ("f", J::A(up)),
                ]
            }
            TyKind::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let r = self.resolve(*d, args);
                vec![
                    ("k", s("fndef")),
                    ("path", s(tcx.def_path_str(*d))),
                    ("callee", r),
                ]
            }
            TyKind::FnPtr(..) => vec![("k", s("fnptr"))],
            TyKind::Dynamic(..) => vec![("k", s("dyn"))],
            _ => vec![("k", s("other"))],
        };
        let mut j = j;
        j.push(("s", s(name)));
        self.types[id] = J::O(j);
        id
    }

    fn key(&mut self, i: Instance<'tcx>) -> String {
        if let Some(k) = self.keys.get(&i) {
            return k.clone();
        }
        let mut k = match i.def {
            InstanceKind::Item(_) => format!("{i}"),
            _ => format!("{i} {:?}", i.def),
        };
        while self.keyset.contains(&k) {
            k.push('\'');
        }
        self.keyset.insert(k.clone());
        self.keys.insert(i, k.clone());
        k
    }

    fn path_of(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    fn enqueue(&mut self, i: Instance<'tcx>) {
        if self.seen.insert(i) {
            self.queue.push(i);
        }
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let abi_rustcall = matches!(
            tcx.def_kind(d),
            DefKind::Fn | DefKind::AssocFn
        ) && tcx.fn_sig(d).skip_binder().abi() == rustc_abi::ExternAbi::RustCall;
        let mut o = vec![("path", s(self.path_of(d)))];
        o.push(("rustcall", J::B(abi_rustcall)));
        let mut targs = vec![];
        for a in args.iter() {
            if let Some(x) = a.as_type() {
                targs.push(n(self.ty(x)));
            } else if let Some(c) = a.as_const() {
                targs.push(s(c.to_string()));
            }
        }
        o.push(("args", J::A(targs)));
        match Instance::try_resolve(tcx, self.te, d, args) {
            Ok(Some(i)) => {
                let did = i.def.def_id();
                o.push(("rpath", s(self.path_of(did))));
                o.push(("crate", s(tcx.crate_name(did.krate).to_string())));
                let kind = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(_) => "shim",
                };
                o.push(("kind", s(kind)));
                if matches!(i.def, InstanceKind::Item(_) | InstanceKind::Shim(_)) {
                    o.push(("key", s(self.key(i))));
                    self.enqueue(i);
                }
                // generic args of the resolved instance
                let mut rargs = vec![];
                for a in i.args.iter() {
                    if let Some(x) = a.as_type() {
                        rargs.push(n(self.ty(x)));
                    } else if let Some(c) = a.as_const() {
                        rargs.push(s(c.to_string()));
                    }
                }
                o.push(("rargs", J::A(rargs)));
                // a library override of a provided method of an iterator trait: the provided body
                // says the same about the iterators that the analysis represents by a model
                if let (InstanceKind::Item(_), Some(t)) = (i.def, tcx.trait_of_assoc(d)) {
                    let tn = self.path_of(t);
                    if did != d
                        && tcx.crate_name(did.krate).as_str() == "core"
                        && (tn == "core::iter::Iterator" || tn == "core::iter::DoubleEndedIterator" || tn == "core::iter::ExactSizeIterator")
                        && tcx.associated_item(d).defaultness(tcx).has_value()
                        && PROVIDED.contains(&tcx.item_name(d).as_str())
                    {
                        let df = Instance::new_raw(d, args);
                        o.push(("dkey", s(self.key(df))));
                        self.enqueue(df);
                    }
                }
            }
            _ => o.push(("kind", s("unresolved"))),
        }
        J::O(o)
    }

    fn has_body(&self, i: Instance<'tcx>) -> bool {
        match i.def {
            InstanceKind::Item(d) => {
                let p = self.path_of(d);
                let p = p.trim_start_matches('<');
                if self.tcx.crate_name(d.krate).as_str() == "core" && STOP.iter().any(|x| p.starts_with(x)) {
                    return false;
                }
                let krate = self.tcx.crate_name(d.krate);
                if krate.as_str() == "alloc" || krate.as_str() == "std" {
                    // strings made from iterators are pushed to, piece by piece
                    let made = p.starts_with("alloc::string::String as core::iter::") && (p.ends_with("::extend") || p.ends_with("::from_iter"))
                        || p.contains("alloc::string::SpecExtend");
                    return made && self.tcx.is_mir_available(d);
                }
                !self.tcx.is_foreign_item(d) && self.tcx.is_mir_available(d)
            }
            InstanceKind::Shim(_) => !matches!(
                i.def,
                InstanceKind::Shim(
                    ty::ShimKind::DropGlue(..)
                        | ty::ShimKind::AsyncDropGlue(..)
                        | ty::ShimKind::AsyncDropGlueCtor(..)
                        | ty::ShimKind::ThreadLocal(..)
                        | ty::ShimKind::FutureDropPoll(..)
                )
            ),
            _ => false,
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(J::A(match e {
                ProjectionElem::Deref => vec![s("*")],
                ProjectionElem::Field(f, t) => vec![s("f"), n(f.as_usize()), n(self.ty(t))],
                ProjectionElem::Index(l) => vec![s("i"), n(l.as_usize())],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => vec![
                    s("ci"),
                    n(offset as usize),
                    n(min_length as usize),
                    J::B(from_end),
                ],
                ProjectionElem::Subslice { from, to, from_end } => {
                    vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)]
                }
                ProjectionElem::Downcast(_, v) => vec![s("d"), n(v.as_usize())],
                ProjectionElem::OpaqueCast(_)
                | ProjectionElem::UnwrapUnsafeBinder(_)
                | ProjectionElem::PhantomDeref => vec![s("?")],
            }));
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }

    fn decode(&mut self, ecx: &CompileTimeInterpCx<'tcx>, op: &OpTy<'tcx>, depth: usize) -> Option<J> {
        if depth > 12 {
            return None;
        }
        let t = op.layout.ty;
        let tcx = self.tcx;
        let tid = n(self.ty(t));
        match t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) => {
                let sc = ecx.read_scalar(op).discard_err()?;
                let Scalar::Int(i) = sc else { return None };
                let v = if matches!(t.kind(), TyKind::Int(_)) {
                    i.to_int(i.size()).to_string()
                } else {
                    i.to_uint(i.size()).to_string()
                };
                Some(J::O(vec![("k", s("int")), ("v", s(v)), ("t", tid)]))
            }
            TyKind::Tuple(ts) => {
                let mut f = vec![];
                for i in 0..ts.len() {
                    let x = ecx.project_field(op, FieldIdx::from_usize(i)).discard_err()?;
                    f.push(self.decode(ecx, &x, depth + 1)?);
                }
                Some(J::O(vec![("k", s("tuple")), ("f", J::A(f)), ("t", tid)]))
            }
            TyKind::Array(_, l) => {
                let l = l.try_to_target_usize(tcx)?;
                if l > 4096 {
                    return None;
                }
                let mut f = vec![];
                for i in 0..l {
                    let x = ecx.project_index(op, i).discard_err()?;
                    f.push(self.decode(ecx, &x, depth + 1)?);
                }
                Some(J::O(vec![("k", s("array")), ("f", J::A(f)), ("t", tid)]))
            }
            TyKind::Adt(d, _) => {
                if d.is_union() {
                    return Some(J::O(vec![("k", s("uninit")), ("t", tid)]));
                }
                let (vi, base) = if d.is_enum() {
                    let v: VariantIdx = ecx.read_discriminant(op).discard_err()?;
                    (v, ecx.project_downcast(op, v).discard_err()?)
                } else {
                    (VariantIdx::from_u32(0), op.clone())
                };
                let mut f = vec![];
                for i in 0..d.variant(vi).fields.len() {
                    let x = ecx
                        .project_field(&base, FieldIdx::from_usize(i))
                        .discard_err()?;
                    f.push(self.decode(ecx, &x, depth + 1)?);
                }
                Some(J::O(vec![
                    ("k", s("adt")),
                    ("v", n(vi.as_usize())),
                    ("f", J::A(f)),
                    ("t", tid),
                ]))
            }
            TyKind::Ref(_, p, _) | TyKind::RawPtr(p, _) => {
                if matches!(p.kind(), TyKind::Dynamic(..)) {
                    return None;
                }
                let is_ref = matches!(t.kind(), TyKind::Ref(..));
                let m = match ecx.deref_pointer(op).discard_err() {
                    Some(m) => m,
                    None => {
                        if is_ref {
                            return None;
                        }
                        let sc = ecx.read_scalar(op).discard_err()?;
                        let Scalar::Int(i) = sc else { return None };
                        return Some(J::O(vec![
                            ("k", s("rawint")),
                            ("v", s(i.to_uint(i.size()).to_string())),
                            ("t", tid),
                        ]));
                    }
                };
                // a reference to a static is shown as such
                let mut stat = None;
                if let Some(prov) = m.ptr().provenance {
                    use rustc_middle::mir::interpret::Provenance as _;
                    if let Some(aid) = prov.get_alloc_id() {
                        if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) =
                            tcx.try_get_global_alloc(aid)
                        {
                            stat = Some(tcx.def_path_str(d));
                        }
                    }
                }
                let v = match p.kind() {
                    TyKind::Str => {
                        let x = ecx.read_str(&m).discard_err()?.to_string();
                        J::O(vec![("k", s("str")), ("v", s(x)), ("t", n(self.ty(*p)))])
                    }
                    TyKind::Slice(_) => {
                        let l = m.len(ecx).discard_err()?;
                        if l > 4096 {
                            return None;
                        }
                        let mut f = vec![];
                        for i in 0..l {
                            let x = ecx.project_index(&m, i).discard_err()?;
                            let x = x.to_op(ecx).discard_err()?;
                            f.push(self.decode(ecx, &x, depth + 1)?);
                        }
                        J::O(vec![("k", s("array")), ("f", J::A(f)), ("t", n(self.ty(*p)))])
                    }
                    _ => {
                        let x = m.to_op(ecx).discard_err()?;
                        match self.decode(ecx, &x, depth + 1) {
                            Some(v) => v,
                            None => J::O(vec![("k", s("opaque")), ("t", n(self.ty(*p)))]),
                        }
                    }
                };
                let mut o = vec![("k", s("ref")), ("v", v), ("t", tid)];
                if let Some(x) = stat {
                    o.push(("static", s(x)));
                }
                Some(J::O(o))
            }
            TyKind::FnDef(..) => Some(J::O(vec![("k", s("fn")), ("t", tid)])),
            TyKind::Closure(..) => Some(J::O(vec![("k", s("closure0")), ("t", tid)])),
            TyKind::Never => Some(J::O(vec![("k", s("uninit")), ("t", tid)])),
            TyKind::Pat(..) => {
                let sc = ecx.read_scalar(op).discard_err()?;
                let Scalar::Int(i) = sc else { return None };
                Some(J::O(vec![("k", s("int")), ("v", s(i.to_uint(i.size()).to_string())), ("t", tid)]))
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, sp: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = n(self.ty(t));
        if let TyKind::FnDef(..) = t.kind() {
            return J::O(vec![("k", s("fn")), ("t", tid)]);
        }
        match c.eval(tcx, self.te, sp) {
            Ok(v) => {
                if let Some((ecx, op)) = mk_eval_cx_for_const_val(tcx.at(DUMMY_SP), self.te, v, t) {
                    if let Some(j) = self.decode(&ecx, &op, 0) {
                        return j;
                    }
                }
                J::O(vec![("k", s("opaque")), ("t", tid), ("d", s(format!("{c}")))])
            }
            Err(_) => J::O(vec![("k", s("opaque")), ("t", tid), ("err", J::B(true))]),
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(&c.const_, c.span)]),
            Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(format!("{r:?}"))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        J::A(match r {
            Rvalue::Use(o, _) => vec![s("use"), self.operand(o)],
            Rvalue::Repeat(o, c) => vec![
                s("repeat"),
                self.operand(o),
                c.try_to_target_usize(self.tcx)
                    .map(|x| J::N(x as i128))
                    .unwrap_or(J::Null),
            ],
            Rvalue::Ref(_, k, p) => vec![
                s("ref"),
                self.place(p),
                J::B(matches!(k, BorrowKind::Mut { .. })),
            ],
            Rvalue::Reborrow(_, _, p) => vec![s("use"), J::A(vec![s("c"), self.place(p)])],
            Rvalue::RawPtr(_, p) => vec![s("ref"), self.place(p), J::B(true)],
            Rvalue::ThreadLocalRef(_) => vec![s("tls")],
            Rvalue::Cast(k, o, t) => {
                let kk = match k {
                    CastKind::PointerCoercion(c, _) => format!("Ptr{c:?}"),
                    k => format!("{k:?}"),
                };
                vec![s("cast"), s(kk), self.operand(o), n(self.ty(*t))]
            }
            Rvalue::BinaryOp(b, x) => vec![
                s("bin"),
                s(format!("{b:?}")),
                self.operand(&x.0),
                self.operand(&x.1),
            ],
            Rvalue::UnaryOp(u, x) => vec![s("un"), s(format!("{u:?}")), self.operand(x)],
            Rvalue::Discriminant(p) => vec![s("discr"), self.place(p)],
            Rvalue::CopyForDeref(p) => vec![s("use"), J::A(vec![s("c"), self.place(p)])],
            Rvalue::Aggregate(k, fs) => {
                let f = J::A(fs.iter().map(|x| self.operand(x)).collect());
                match &**k {
                    AggregateKind::Array(_) => vec![s("agg"), s("array"), f],
                    AggregateKind::Tuple => vec![s("agg"), s("tuple"), f],
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self
                            .tcx
                            .type_of(*d)
                            .instantiate(self.tcx, args);
                        let t = self
                            .tcx
                            .normalize_erasing_regions(self.te, t);
                        vec![
                            s("agg"),
                            s("adt"),
                            f,
                            n(v.as_usize()),
                            n(self.ty(t)),
                            active.map(|x| n(x.as_usize())).unwrap_or(J::Null),
                        ]
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        vec![s("agg"), s("closure"), f, J::Null, n(self.ty(t))]
                    }
                    AggregateKind::RawPtr(..) => vec![s("agg"), s("rawptr"), f],
                    _ => vec![s("agg"), s("?"), f],
                }
            }
            Rvalue::WrapUnsafeBinder(..) => vec![s("?")],
        })
    }

    fn body(&mut self, i: Instance<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let key = self.key(i);
        let did = i.def.def_id();
        let mut o = vec![
            ("key", s(key)),
            ("path", s(self.path_of(did))),
            ("crate", s(tcx.crate_name(did.krate).to_string())),
            ("span", s(span_str(tcx, tcx.def_span(did)))),
        ];
        o.push((
            "kind",
            s(match i.def {
                InstanceKind::Item(d) if tcx.is_closure_like(d) => "closure",
                InstanceKind::Item(_) => "item",
                _ => "shim",
            }),
        ));
        let mut rargs = vec![];
        for a in i.args.iter() {
            if let Some(x) = a.as_type() {
                rargs.push(n(self.ty(x)));
            } else if let Some(c) = a.as_const() {
                rargs.push(s(c.to_string()));
            }
        }
        o.push(("args", J::A(rargs)));
        if !self.has_body(i) {
            o.push(("nobody", J::B(true)));
            return Some(J::O(o));
        }
        let b = tcx.instance_mir(i.def).clone();
        let b = i.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.te,
            ty::EarlyBinder::bind(tcx, b),
        );
        o.push(("nargs", n(b.arg_count)));
        o.push((
            "spread",
            b.spread_arg.map(|x| n(x.as_usize())).unwrap_or(J::Null),
        ));
        let locals = b.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        o.push(("locals", J::A(locals)));
        let names = b.var_debug_info.iter().filter_map(|v| match v.value {
            VarDebugInfoContents::Place(p) if p.projection.is_empty() => Some(J::A(vec![s(v.name.to_string()), n(p.local.as_usize())])),
            _ => None,
        }).collect();
        o.push(("names", J::A(names)));
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let line = |me: &Self| s(span_str(me.tcx, x.source_info.span));
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1);
                        st.push(J::A(vec![s("="), p, r, line(self)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("sd"), p, n(variant_index.as_usize()), line(self)]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => {
                            let o = self.operand(o);
                            st.push(J::A(vec![s("assume"), o, line(self)]));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(&c.src);
                            let b = self.operand(&c.dst);
                            let k = self.operand(&c.count);
                            st.push(J::A(vec![s("copyno"), a, b, k, line(self)]));
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = s(span_str(tcx, t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![s("goto"), n(target.as_usize())],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![s(v.to_string()), n(b.as_usize())]))
                        .collect();
                    let d = self.operand(discr);
                    let dt = discr.ty(&b.local_decls, tcx);
                    vec![
                        s("switch"),
                        d,
                        J::A(v),
                        n(targets.otherwise().as_usize()),
                        n(self.ty(dt)),
                    ]
                }
                TerminatorKind::Return => vec![s("ret")],
                TerminatorKind::Unreachable => vec![s("unreachable")],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    vec![s("resume")]
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&b.local_decls, tcx).ty;
                    let p = self.place(place);
                    vec![s("drop"), p, n(target.as_usize()), n(self.ty(t))]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&b.local_decls, tcx);
                    let callee = match ft.kind() {
                        TyKind::FnDef(d, a) => {
                            let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                            self.resolve(*d, a)
                        }
                        _ => J::O(vec![("kind", s("fnptr")), ("op", self.operand(func))]),
                    };
                    let a = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    vec![
                        s("call"),
                        callee,
                        J::A(a),
                        d,
                        target.map(|x| n(x.as_usize())).unwrap_or(J::Null),
                        n(self.ty(dt)),
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div by zero".to_string(),
                        AssertKind::RemainderByZero(_) => "rem by zero".to_string(),
                        AssertKind::MisalignedPointerDereference { .. } => "ubcheck".into(),
                        AssertKind::NullPointerDereference => "ubcheck".into(),
                        AssertKind::NullReferenceConstructed => "ubcheck".into(),
                        AssertKind::InvalidEnumConstruction(_) => "ubcheck".into(),
                        _ => "other".to_string(),
                    };
                    vec![
                        s("assert"),
                        self.operand(cond),
                        J::B(*expected),
                        s(m),
                        n(target.as_usize()),
                    ]
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![s("goto"), n(real_target.as_usize())]
                }
                _ => vec![s("?")],
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", J::A(tj)),
                ("l", line),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        o.push(("blocks", J::A(blocks)));
        Some(J::O(o))
    }
}

fn dump_mono(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx {
        tcx,
        te: TypingEnv::fully_monomorphized(),
        types: vec![],
        tymap: Default::default(),
        queue: vec![],
        seen: Default::default(),
        keys: Default::default(),
        keyset: Default::default(),
        statics: vec![],
        statics_seen: Default::default(),
    };
    let _ = &cx.statics_seen;
    let mut entries = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        if !matches!(tcx.def_kind(d), DefKind::Fn) {
            continue;
        }
        let name = tcx.item_name(d.to_def_id()).to_string();
        if !name.starts_with("e_") || tcx.generics_of(d).requires_monomorphization(tcx) {
            continue;
        }
        let i = Instance::mono(tcx, d.to_def_id());
        let k = cx.key(i);
        entries.push(J::A(vec![s(name), s(k)]));
        cx.enqueue(i);
    }
    let mut bodies = vec![];
    while let Some(i) = cx.queue.pop() {
        if let Some(b) = cx.body(i) {
            bodies.push(b);
        }
    }
    let j = J::O(vec![
        ("entries", J::A(entries)),
        ("types", J::A(cx.types)),
        ("bodies", J::A(bodies)),
        ("statics", J::M(cx.statics)),
    ]);
    let mut o = String::new();
    j.w(&mut o);
    std::fs::write(out, o).unwrap();
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("VP_MONO_OUT") {
            dump_mono(tcx, &out);
        }
        if let Ok(out) = std::env::var("VP_FACTS_OUT") {
            facts::dump(tcx, &out);
        }
        let _ = LOCAL_CRATE;
        let _ = mir::START_BLOCK;
        Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
