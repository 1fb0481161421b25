use crate::json::{n, s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv,
};
use rustc_span::{Span, DUMMY_SP};
use std::collections::{BTreeMap, HashMap, VecDeque};

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    tyids: HashMap<Ty<'tcx>, usize>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    queue: VecDeque<usize>,
    fns: Vec<(String, J)>,
}

fn walk_crate(name: &str, path: &str) -> bool {
    match name {
        "core" => {
            let deny = [
                "core::fmt", "core::str", "core::slice", "core::iter", "core::char", "core::ptr", "core::hash",
                "core::intrinsics", "core::panicking", "core::alloc", "core::cell", "core::any", "core::mem",
                "core::unicode", "core::num::dec2flt", "core::num::bignum", "core::num::flt2dec", "core::ub_checks",
                "core::array::iter", "core::sync", "core::time", "core::task", "core::future", "core::pin",
                "core::arch", "core::core_arch", "core::escape", "core::ascii", "core::range", "core::marker",
                "core::num::fmt", "core::num::imp", "core::num::float_parse", "core::num::int_log10", "core::num::diy_float",
            ];
            !deny.iter().any(|d| path.starts_with(d))
        },
        _ => false,
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut d = D {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        types: vec![],
        tyids: HashMap::new(),
        insts: HashMap::new(),
        inst_list: vec![],
        queue: VecDeque::new(),
        fns: vec![],
    };
    with_no_trimmed_paths!(d.run())
}

impl<'tcx> D<'tcx> {
    fn path(&self, def: DefId) -> String {
        let c = self.tcx.crate_name(def.krate).to_string();
        let p = self.tcx.def_path(def).to_string_no_crate_verbose();
        format!("{}{}", c, p)
    }
    fn nice(&self, def: DefId) -> String {
        let p = self.tcx.def_path_str(def);
        if def.krate == LOCAL_CRATE {
            format!("crate::{}", p)
        } else {
            p
        }
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut roots = vec![];
        let mut impls = vec![];
        let mut generic = vec![];
        let mut statics = vec![];
        let mut adts = vec![];
        let mut unsafe_fns = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let def = id.to_def_id();
            let kind = tcx.def_kind(def);
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let generics = tcx.generics_of(def);
                    let mut has_params = generics.requires_monomorphization(tcx);
                    let mut implinfo = J::Null;
                    let parent = tcx.parent(def);
                    if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                        let self_ty = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                        let tr = if of_trait {
                            s(self.nice(tcx.impl_trait_ref(parent).skip_binder().def_id))
                        } else {
                            J::Null
                        };
                        let trref = if of_trait {
                            s(format!("{}", tcx.impl_trait_ref(parent).skip_binder()))
                        } else {
                            J::Null
                        };
                        implinfo = J::O(vec![
                            ("self", s(format!("{}", self_ty))),
                            ("trait", tr),
                            ("traitref", trref),
                            ("derived", J::B(tcx.is_automatically_derived(parent))),
                        ]);
                    } else if let DefKind::Trait = tcx.def_kind(parent) {
                        has_params = true;
                    }
                    let vis = tcx.visibility(def).is_public();
                    let reach = tcx.effective_visibilities(()).is_reachable(id);
                    let mut key = J::Null;
                    if !has_params {
                        let inst = Instance::new_raw(def, self.erased_args(def));
                        let k = self.inst(inst);
                        key = s(k);
                    } else {
                        generic.push(s(self.nice(def)));
                    }
                    let item = J::O(vec![
                        ("path", s(self.nice(def))),
                        ("name", s(tcx.item_name(def).to_string())),
                        ("key", key),
                        ("pub", J::B(vis)),
                        ("reachable", J::B(reach)),
                        ("impl", implinfo),
                        ("span", self.span(tcx.def_span(def))),
                    ]);
                    roots.push(item);
                    let sig = tcx.fn_sig(def).skip_binder();
                    if sig.safety().is_unsafe() {
                        unsafe_fns.push(s(self.nice(def)));
                    }
                },
                DefKind::Static { .. } => {
                    let ty = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let freeze = ty.is_freeze(tcx, self.env);
                    statics.push(J::O(vec![
                        ("path", s(self.nice(def))),
                        ("mut", J::B(tcx.is_mutable_static(def))),
                        ("freeze", J::B(freeze)),
                        ("span", self.span(tcx.def_span(def))),
                    ]));
                },
                DefKind::Struct | DefKind::Enum => {
                    let reach = tcx.effective_visibilities(()).is_reachable(id);
                    let gens = tcx.generics_of(def).requires_monomorphization(tcx);
                    let ty = if gens {
                        J::Null
                    } else {
                        let args = self.erased_args(def);
                        let t = tcx.type_of(def).instantiate(tcx, args).skip_norm_wip();
                        n(self.ty(t))
                    };
                    adts.push(J::O(vec![
                        ("path", s(self.nice(def))),
                        ("name", s(tcx.item_name(def).to_string())),
                        ("reachable", J::B(reach)),
                        ("ty", ty),
                        ("span", self.span(tcx.def_span(def))),
                    ]));
                },
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(def).skip_binder();
                    impls.push(J::O(vec![
                        ("trait", s(self.nice(tr.def_id))),
                        ("ref", s(format!("{}", tr))),
                        ("derived", J::B(tcx.is_automatically_derived(def))),
                    ]));
                },
                _ => {},
            }
        }
        while let Some(i) = self.queue.pop_front() {
            self.dump_inst(i);
        }
        let top = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("roots", J::A(roots)),
            ("generic", J::A(generic)),
            ("statics", J::A(statics)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("unsafe_fns", J::A(unsafe_fns)),
            ("types", J::A(std::mem::take(&mut self.types))),
            ("fns", J::M(std::mem::take(&mut self.fns))),
        ]);
        let mut o = String::new();
        top.w(&mut o);
        o
    }

    fn erased_args(&self, def: DefId) -> GenericArgsRef<'tcx> {
        let tcx = self.tcx;
        ty::GenericArgs::for_item(tcx, def, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => tcx.mk_param_from_def(p),
        })
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    fn inst(&mut self, i: Instance<'tcx>) -> String {
        if let Some(x) = self.insts.get(&i) {
            return format!("f{}", x);
        }
        let id = self.inst_list.len();
        self.insts.insert(i, id);
        self.inst_list.push(i);
        self.queue.push_back(id);
        format!("f{}", id)
    }

    fn resolve(&mut self, def: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        if args.has_param() || args.has_aliases() {
            return None;
        }
        match Instance::try_resolve(self.tcx, self.env, def, args) {
            Ok(Some(i)) => Some(i),
            _ => None,
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tyids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tyids.insert(t, id);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", s("prim")));
            },
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.nice(def.did()))));
                o.push(("name", s(tcx.item_name(def.did()).to_string())));
                o.push(("crate", s(tcx.crate_name(def.did().krate).to_string())));
                o.push(("enum", J::B(def.is_enum())));
                let targs: Vec<J> = args.types().map(|a| n(self.ty(a))).collect();
                o.push(("args", J::A(targs)));
                let local = def.did().krate == LOCAL_CRATE;
                let cn = tcx.crate_name(def.did().krate).to_string();
                let p = self.nice(def.did());
                let expand = local
                    || p.starts_with("core::option")
                    || p.starts_with("core::result")
                    || p.starts_with("std::option")
                    || p.starts_with("std::result")
                    || p.contains("ops::")
                    || p.contains("cmp::")
                    || p.contains("borrow::Cow")
                    || p.contains("convert::")
                    || (cn == "nom" && (p.starts_with("nom::Err") || p.starts_with("nom::error") || p.starts_with("nom::Needed")))
                    || cn == "log"
                    || p.starts_with("core::num")
                    || p.starts_with("std::num");
                let mut vs = vec![];
                if expand && !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.normalize_erasing_regions(self.env, ft);
                            fs.push(J::O(vec![
                                ("name", s(f.name.to_string())),
                                ("ty", n(self.ty(ft))),
                                ("pub", J::B(f.vis.is_public())),
                            ]));
                        }
                        let discr = if def.is_enum() {
                            J::U(def.discriminant_for_variant(tcx, vi).val)
                        } else {
                            J::N(0)
                        };
                        vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", discr), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            },
            ty::Array(e, len) => {
                o.push(("k", s("array")));
                o.push(("elem", n(self.ty(e))));
                o.push(("len", len.try_to_target_usize(tcx).map(|x| J::N(x as i128)).unwrap_or(J::Null)));
            },
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                o.push(("elem", n(self.ty(e))));
            },
            ty::RawPtr(e, _) => {
                o.push(("k", s("rawptr")));
                o.push(("elem", n(self.ty(e))));
            },
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("elem", n(self.ty(e))));
                o.push(("mut", J::B(m.is_mut())));
            },
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|a| n(self.ty(a))).collect();
                o.push(("args", J::A(v)));
            },
            ty::FnDef(def, args) => {
                o.push(("k", s("fndef")));
                let args = args.skip_binder();
                o.push(("path", s(self.nice(def.into()))));
                let targs: Vec<J> = args.types().map(|a| n(self.ty(a))).collect();
                o.push(("args", J::A(targs)));
                if let Some(i) = self.resolve(def.into(), args) {
                    let k = self.inst(i);
                    o.push(("fn", s(k)));
                }
            },
            ty::FnPtr(..) => {
                o.push(("k", s("fnptr")));
            },
            ty::Closure(def, args) => {
                o.push(("k", s("closure")));
                let ca = args.as_closure();
                let kind = ca.kind();
                o.push(("ck", s(format!("{:?}", kind))));
                let ups: Vec<J> = ca.upvar_tys().iter().map(|a| n(self.ty(a))).collect();
                o.push(("upvars", J::A(ups)));
                let i = Instance::resolve_closure(tcx, def, args, kind);
                let k = self.inst(i);
                o.push(("fn", s(k)));
                o.push(("span", self.span(tcx.def_span(def))));
                o.push(("path", s(self.nice(def))));
            },
            ty::Dynamic(..) => {
                o.push(("k", s("dyn")));
            },
            _ => {
                o.push(("k", s("other")));
            },
        }
        o.push(("s", s(format!("{}", t))));
        self.types[id] = J::O(o);
        id
    }

    fn dump_inst(&mut self, idx: usize) {
        let tcx = self.tcx;
        let inst = self.inst_list[idx];
        let def = inst.def_id();
        let key = format!("f{}", idx);
        let krate = tcx.crate_name(def.krate).to_string();
        let path = self.nice(def);
        let rawpath = self.path(def);
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(path.clone())),
            ("raw", s(rawpath.clone())),
            ("crate", s(krate.clone())),
            ("inst", s(format!("{}", inst))),
        ];
        let kindname = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(sk) => match sk {
                ShimKind::ClosureOnce { .. } => "closureonce",
                ShimKind::FnPtr(..) => "fnptrshim",
                ShimKind::DropGlue(..) => "dropglue",
                ShimKind::Clone(..) => "cloneshim",
                ShimKind::Reify(..) => "reify",
                _ => "shim",
            },
        };
        o.push(("kind", s(kindname)));
        o.push(("defkind", s(format!("{:?}", tcx.def_kind(def)))));
        if let Some(name) = tcx.opt_item_name(def) {
            o.push(("name", s(name.to_string())));
        }
        // trait / impl info
        if let Some(parent) = tcx.opt_parent(def) {
            match tcx.def_kind(parent) {
                DefKind::Impl { of_trait } => {
                    o.push(("derived", J::B(tcx.is_automatically_derived(parent))));
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    o.push(("implself", s(format!("{}", st))));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(parent).skip_binder();
                        o.push(("trait", s(self.nice(tr.def_id))));
                    }
                },
                DefKind::Trait => {
                    o.push(("trait", s(self.nice(parent))));
                    o.push(("traitdefault", J::B(true)));
                },
                _ => {},
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(def) {
            let adt_def = {
                let p = tcx.parent(def);
                match tcx.def_kind(p) {
                    DefKind::Variant => tcx.parent(p),
                    _ => p,
                }
            };
            let ad = tcx.adt_def(adt_def);
            let vi = ad.variant_index_with_ctor_id(def);
            o.push(("ctor_variant", n(vi.as_usize())));
            let t = tcx.type_of(adt_def).instantiate(tcx, inst.args);
            let t = tcx.normalize_erasing_regions(self.env, t);
            o.push(("ctor_ty", n(self.ty(t))));
        }
        let targs: Vec<J> = inst.args.types().map(|a| n(self.ty(a))).collect();
        o.push(("args", J::A(targs)));
        let is_local = def.krate == LOCAL_CRATE;
        let walk = (is_local || walk_crate(&krate, &rawpath))
            && matches!(inst.def, InstanceKind::Item(_))
            && !matches!(tcx.def_kind(def), DefKind::Ctor(..))
            && (is_local || tcx.is_mir_available(def));
        // signature
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(def).instantiate(tcx, inst.args).skip_norm_wip();
            let sig = tcx.normalize_erasing_regions(
                self.env,
                ty::Unnormalized::new_wip(tcx.instantiate_bound_regions_with_erased(sig)),
            );
            let ins: Vec<J> = sig.inputs().iter().map(|t| n(self.ty(*t))).collect();
            o.push(("sig_in", J::A(ins)));
            o.push(("sig_out", n(self.ty(sig.output()))));
        }
        o.push(("span", self.span(tcx.def_span(def))));
        if walk {
            let body = tcx.instance_mir(inst.def);
            let body: Body<'tcx> =
                inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body.clone()));
            let b = self.body(&body);
            o.push(("body", b));
        }
        self.fns.push((key, J::O(o)));
    }

    fn body(&mut self, body: &Body<'tcx>) -> J {
        let locals: Vec<J> = body.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let blocks: Vec<J> = body
            .basic_blocks
            .iter()
            .map(|bb| {
                if bb.is_cleanup {
                    return J::Null;
                }
                let stmts: Vec<J> = bb.statements.iter().filter_map(|st| self.stmt(body, st)).collect();
                let t = bb.terminator();
                let tj = self.term(body, t);
                J::O(vec![("s", J::A(stmts)), ("t", tj)])
            })
            .collect();
        J::O(vec![
            ("argc", n(body.arg_count)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::M(names.into_iter().map(|(k, v)| (k.to_string(), s(v))).collect())),
            ("blocks", J::A(blocks)),
        ])
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        for (base, e) in p.as_ref().iter_projections() {
            let _ = base;
            proj.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize()), n(self.ty(t))]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    n(offset as usize),
                    n(min_length as usize),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)])
                },
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_usize())]),
                _ => s("?"),
            });
        }
        let ty = p.ty(&body.local_decls, self.tcx).ty;
        let ty = self.ty(ty);
        J::A(vec![n(p.local.as_usize()), J::A(proj), n(ty)])
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                let v = self.konst(&c.const_, c.span);
                let t = self.ty(ty);
                J::A(vec![s("k"), v, n(t)])
            },
            Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(format!("{:?}", r))]),
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, span: Span) -> J {
        let ty = c.ty();
        if let ty::FnDef(..) = ty.kind() {
            return J::O(vec![("fn", n(self.ty(ty)))]);
        }
        match c.eval(self.tcx, self.env, span) {
            Ok(v) => self.cval(v, ty, 0),
            Err(_) => J::O(vec![("err", s(format!("{}", c)))]),
        }
    }

    fn cval(&mut self, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::O(vec![("opaque", s(format!("{}", ty)))]);
        }
        match *ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(si) = v.try_to_scalar_int() {
                    let size = si.size();
                    return match ty.kind() {
                        ty::Int(_) => J::O(vec![("int", J::N(si.to_int(size)))]),
                        ty::Bool => J::O(vec![("bool", J::B(si.to_uint(size) != 0))]),
                        ty::Char => J::O(vec![("char", J::U(si.to_uint(size)))]),
                        ty::Float(ty::FloatTy::F32) => {
                            let x = f32::from_bits(si.to_uint(size) as u32);
                            J::O(vec![("float", s(format!("{:?}", x)))])
                        },
                        ty::Float(ty::FloatTy::F64) => {
                            let x = f64::from_bits(si.to_uint(size) as u64);
                            J::O(vec![("float", s(format!("{:?}", x)))])
                        },
                        _ => J::O(vec![("int", J::U(si.to_uint(size)))]),
                    };
                }
            },
            ty::FnDef(..) => return J::O(vec![("fn", n(self.ty(ty)))]),
            ty::Closure(..) => return J::O(vec![("zst", n(self.ty(ty)))]),
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]);
                    }
                    return J::O(vec![("opaque", s("str"))]);
                }
                if let ty::Slice(e) = inner.kind() {
                    if let ConstValue::Slice { alloc_id, meta } = v {
                        let lay = tcx.layout_of(self.env.as_query_input(*e));
                        if let Ok(l) = lay {
                            let mut out = vec![];
                            for i in 0..meta {
                                let cv = ConstValue::Indirect { alloc_id, offset: l.size * i };
                                out.push(self.cval(cv, *e, depth + 1));
                            }
                            return J::O(vec![("slice", J::A(out))]);
                        }
                    }
                    if let ConstValue::Indirect { alloc_id, offset } = v {
                        if let Some((aid, off, len)) = self.read_wide(alloc_id, offset) {
                            if let Ok(l) = tcx.layout_of(self.env.as_query_input(*e)) {
                                let mut out = vec![];
                                for i in 0..len {
                                    let cv = ConstValue::Indirect { alloc_id: aid, offset: off + l.size * i };
                                    out.push(self.cval(cv, *e, depth + 1));
                                }
                                return J::O(vec![("slice", J::A(out))]);
                            }
                        }
                    }
                    return J::O(vec![("opaque", s(format!("{}", ty)))]);
                }
                if inner.is_sized(tcx, self.env) {
                    let sc = match v {
                        ConstValue::Scalar(sc) => Some(sc),
                        ConstValue::Indirect { alloc_id, offset } => self.read_thin(alloc_id, offset),
                        _ => None,
                    };
                    if let Some(Scalar::Ptr(p, _)) = sc {
                        let (prov, off) = p.into_raw_parts();
                        let aid = prov.alloc_id();
                        let mut aid2 = aid;
                        match tcx.global_alloc(aid) {
                            GlobalAlloc::Memory(_) => {},
                            GlobalAlloc::Static(d) => {
                                if tcx.is_mutable_static(d) || !inner.is_freeze(tcx, self.env) {
                                    return J::O(vec![("static", s(self.nice(d)))]);
                                }
                                match tcx.eval_static_initializer(d) {
                                    Ok(a) => aid2 = tcx.reserve_and_set_memory_alloc(a),
                                    Err(_) => return J::O(vec![("static", s(self.nice(d)))]),
                                }
                            },
                            GlobalAlloc::Function { instance } => {
                                let k = self.inst(instance);
                                return J::O(vec![("fnaddr", s(k))]);
                            },
                            _ => return J::O(vec![("opaque", s(format!("{}", ty)))]),
                        }
                        if let Ok(l) = tcx.layout_of(self.env.as_query_input(inner)) {
                            if l.size.bytes() == 0 {
                                return J::O(vec![("ref", self.cval(ConstValue::ZeroSized, inner, depth + 1))]);
                            }
                        }
                        let cv = ConstValue::Indirect { alloc_id: aid2, offset: off };
                        return J::O(vec![("ref", self.cval(cv, inner, depth + 1))]);
                    }
                }
                return J::O(vec![("opaque", s(format!("{}", ty)))]);
            },
            ty::FnPtr(..) => {
                let sc = match v {
                    ConstValue::Scalar(sc) => Some(sc),
                    ConstValue::Indirect { alloc_id, offset } => self.read_thin(alloc_id, offset),
                    _ => None,
                };
                if let Some(Scalar::Ptr(p, _)) = sc {
                    let (prov, _) = p.into_raw_parts();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        let k = self.inst(instance);
                        return J::O(vec![("fnaddr", s(k))]);
                    }
                }
            },
            ty::Adt(def, _) if def.is_union() => {},
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                    let fields: Vec<J> = dc.fields.iter().map(|(cv, t)| self.cval(*cv, *t, depth + 1)).collect();
                    return J::O(vec![
                        ("agg", J::A(fields)),
                        ("variant", dc.variant.map(|v| n(v.as_usize())).unwrap_or(J::Null)),
                        ("ty", n(self.ty(ty))),
                    ]);
                }
            },
            _ => {},
        }
        if let ConstValue::ZeroSized = v {
            return J::O(vec![("zst", n(self.ty(ty)))]);
        }
        J::O(vec![("opaque", s(format!("{}", ty)))])
    }

    fn read_thin(&self, aid: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size) -> Option<Scalar> {
        if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(aid) {
            let sz = self.tcx.data_layout.pointer_size();
            return a.inner().read_scalar(&self.tcx, AllocRange { start: off, size: sz }, true).ok();
        }
        None
    }
    fn read_wide(
        &self,
        aid: rustc_middle::mir::interpret::AllocId,
        off: rustc_abi::Size,
    ) -> Option<(rustc_middle::mir::interpret::AllocId, rustc_abi::Size, u64)> {
        let sz = self.tcx.data_layout.pointer_size();
        let p = self.read_thin(aid, off)?;
        if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(aid) {
            let l = a
                .inner()
                .read_scalar(&self.tcx, AllocRange { start: off + sz, size: sz }, false)
                .ok()?
                .to_target_usize(&self.tcx)
                .discard_err()?;
            if let Scalar::Ptr(p, _) = p {
                let (prov, o) = p.into_raw_parts();
                return Some((prov.alloc_id(), o, l));
            }
        }
        None
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(op, _) => J::A(vec![s("use"), self.operand(body, op)]),
            Rvalue::Repeat(op, c) => J::A(vec![
                s("repeat"),
                self.operand(body, op),
                c.try_to_target_usize(tcx).map(|x| J::N(x as i128)).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
                self.place(body, p),
            ]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("reborrow"), J::B(m.is_mut()), self.place(body, p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(body, p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.nice(*d))]),
            Rvalue::Cast(k, op, t) => {
                let t2 = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(body, op), n(t2)])
            },
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(format!("{:?}", b)),
                self.operand(body, &ops.0),
                self.operand(body, &ops.1),
            ]),
            Rvalue::UnaryOp(u, op) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(body, op)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, p)])]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                let kind = match **k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let t = tcx.type_of(d).instantiate(tcx, args);
                        let t = tcx.normalize_erasing_regions(self.env, t);
                        J::A(vec![
                            s("adt"),
                            n(self.ty(t)),
                            n(vi.as_usize()),
                            active.map(|f| n(f.as_usize())).unwrap_or(J::Null),
                        ])
                    },
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, d, args);
                        J::A(vec![s("closure"), n(self.ty(t))])
                    },
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kind, J::A(v)])
            },
            Rvalue::WrapUnsafeBinder(op, _) => J::A(vec![s("use"), self.operand(body, op)]),
        }
    }

    fn stmt(&mut self, body: &Body<'tcx>, st: &Statement<'tcx>) -> Option<J> {
        match &st.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let pj = self.place(body, p);
                let rj = self.rvalue(body, r);
                Some(J::A(vec![s("="), pj, rj]))
            },
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(J::A(vec![s("sd"), self.place(body, place), n(variant_index.as_usize())]))
            },
            StatementKind::StorageDead(l) => Some(J::A(vec![s("dead"), n(l.as_usize())])),
            _ => None,
        }
    }

    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.operand(body, discr);
                let dty = discr.ty(&body.local_decls, self.tcx);
                let v: Vec<J> = targets
                    .iter()
                    .map(|(v, b)| {
                        let vv = if let ty::Int(it) = dty.kind() {
                            let bits = it.bit_width().unwrap_or(64) as u32;
                            let sh = 128 - bits;
                            J::N(((v << sh) as i128) >> sh)
                        } else {
                            J::U(v)
                        };
                        J::A(vec![vv, n(b.as_usize())])
                    })
                    .collect();
                J::A(vec![s("switch"), d, J::A(v), n(targets.otherwise().as_usize()), sp])
            },
            TerminatorKind::Return => J::A(vec![s("ret")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(body, place);
                J::A(vec![s("drop"), p, n(target.as_usize()), sp])
            },
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = self.operand(body, func);
                let a: Vec<J> = args.iter().map(|a| self.operand(body, &a.node)).collect();
                let d = self.place(body, destination);
                J::A(vec![
                    s("call"),
                    f,
                    J::A(a),
                    d,
                    target.map(|b| n(b.as_usize())).unwrap_or(J::Null),
                    sp,
                ])
            },
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(body, cond);
                let (name, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        ("bounds".into(), vec![self.operand(body, len), self.operand(body, index)])
                    },
                    AssertKind::Overflow(b, x, y) => (
                        format!("overflow:{:?}", b),
                        vec![self.operand(body, x), self.operand(body, y)],
                    ),
                    AssertKind::OverflowNeg(x) => ("overflowneg".into(), vec![self.operand(body, x)]),
                    AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.operand(body, x)]),
                    AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.operand(body, x)]),
                    _ => ("other".into(), vec![]),
                };
                J::A(vec![
                    s("assert"),
                    c,
                    J::B(*expected),
                    s(name),
                    J::A(ops),
                    n(target.as_usize()),
                    sp,
                ])
            },
            _ => J::A(vec![s("other"), s(format!("{:?}", t.kind).chars().take(80).collect::<String>())]),
        }
    }
}
#[allow(dead_code)]
fn _unused() -> Span {
    DUMMY_SP
}
