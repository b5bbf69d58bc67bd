use crate::json::J;
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: FxHashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    adtseen: FxHashSet<DefId>,
    adtq: Vec<DefId>,
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut d = D { tcx, tys: vec![], tymap: Default::default(), adts: vec![], adtseen: Default::default(), adtq: vec![] };
    let mut fns = vec![];
    let mut consts = vec![];
    let mut statics = vec![];
    for ld in tcx.mir_keys(()).iter().copied() {
        let did = ld.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => fns.push(d.func(did)),
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if tcx.generics_of(did).is_empty() && tcx.generics_of(did).parent_count == 0 {
                    let te = TypingEnv::fully_monomorphized();
                    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        let jv = d.val(v, ty, te, 0);
                        let t = d.ty(ty);
                        consts.push(J::O(vec![("id", J::S(d.path(did))), ("ty", J::I(t as i128)), ("v", jv), ("span", d.span(tcx.def_span(did)))]));
                    }
                }
            }
            DefKind::Static { .. } => {
                let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = d.ty(ty);
                statics.push(J::O(vec![("id", J::S(d.path(did))), ("ty", J::I(t as i128)), ("span", d.span(tcx.def_span(did)))]));
            }
            _ => {}
        }
    }
    // local ADTs, impls
    let mut impls = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => { d.adt(did); }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let sti = d.ty(st);
                let tr = if of_trait { J::S(d.path(tcx.impl_trait_ref(did).skip_binder().def_id)) } else { J::N };
                let items = tcx.associated_item_def_ids(did).iter().map(|i| {
                    J::A(vec![J::S(tcx.item_name(*i).to_string()), J::S(d.path(*i))])
                }).collect();
                impls.push(J::O(vec![("id", J::S(d.path(did))), ("trait", tr), ("self", J::I(sti as i128)),
                    ("self_s", J::S(with_no_trimmed_paths!(st.to_string()))), ("items", J::A(items)), ("span", d.span(tcx.def_span(did)))]));
            }
            _ => {}
        }
    }
    while let Some(a) = d.adtq.pop() { d.adt_def(a); }
    let out = J::O(vec![
        ("crate", J::S(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("fns", J::A(fns)), ("consts", J::A(consts)), ("statics", J::A(statics)),
        ("impls", J::A(impls)), ("adts", J::A(d.adts)), ("tys", J::A(d.tys)),
    ]);
    let mut s = String::new();
    out.write(&mut s);
    s
}

impl<'tcx> D<'tcx> {
    fn path(&self, did: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(did.krate), self.tcx.def_path(did).to_string_no_crate_verbose())
    }
    /// Readable name: `<Self>::method`, `<Self as Trait>::method` or the module path.
    fn pretty(&self, did: DefId) -> String {
        with_no_trimmed_paths!({
            let tcx = self.tcx;
            if tcx.def_kind(did) == DefKind::Closure {
                return format!("{}::{{closure}}", self.pretty(tcx.parent(did)));
            }
            if let Some(p) = tcx.opt_parent(did) {
                if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let name = tcx.item_name(did);
                    let sts = match st.kind() { ty::Adt(a, _) => self.path(a.did()), _ => st.to_string() };
                    return if of_trait {
                        let tr = tcx.impl_trait_ref(p).skip_binder().def_id;
                        format!("<{} as {}>::{}", sts, self.path(tr), name)
                    } else { format!("{}::{}", sts, name) };
                }
            }
            self.path(did)
        })
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let root = sp.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let mut v = vec![J::S(f), J::I(lo.line as i128)];
        let mut macs = vec![];
        for e in sp.macro_backtrace() { macs.push(e.kind.descr()); }
        if let Some(m) = macs.last() { v.push(J::S(m.clone())); }
        J::A(v)
    }
    fn adt(&mut self, did: DefId) { if self.adtseen.insert(did) { self.adtq.push(did); } }
    fn adt_def(&mut self, did: DefId) {
        let tcx = self.tcx;
        let a = tcx.adt_def(did);
        let mut vs = vec![];
        let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if a.is_enum() { a.discriminants(tcx).map(|(i, d)| (i, d.val)).collect() } else { vec![] };
        for (vi, v) in a.variants().iter_enumerated() {
            let fs = v.fields.iter().map(|f| {
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let te = ty::TypingEnv::post_analysis(tcx, did);
                let fty = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(fty)).unwrap_or(fty);
                let t = self.ty(fty);
                J::A(vec![J::S(f.name.to_string()), J::I(t as i128), J::B(f.vis.is_public())])
            }).collect();
            let dv = discrs.iter().find(|(i, _)| *i == vi).map(|(_, d)| *d).unwrap_or(0);
            vs.push(J::O(vec![("n", J::S(v.name.to_string())), ("d", J::I(dv as i128)), ("f", J::A(fs))]));
        }
        let k = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let p = self.path(did);
        let has_drop = tcx.adt_destructor(did).map(|d| self.path(d.did));
        self.adts.push(J::O(vec![("id", J::S(p)), ("k", J::s(k)), ("v", J::A(vs)),
            ("drop", has_drop.map(J::S).unwrap_or(J::N)), ("span", self.span(tcx.def_span(did)))]));
    }
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        J::A(args.iter().filter_map(|g| match g.kind() {
            ty::GenericArgKind::Type(t) => Some(J::I(self.ty(t) as i128)),
            ty::GenericArgKind::Const(c) => Some(J::S(format!("{c}"))),
            _ => None,
        }).collect())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.push(J::N);
        self.tymap.insert(t, i);
        let s = |x: &str| J::s(x);
        let j = match *t.kind() {
            ty::Bool => vec![("k", s("bool"))],
            ty::Char => vec![("k", s("char"))],
            ty::Int(x) => vec![("k", s("int")), ("b", J::I(x.bit_width().unwrap_or(64) as i128))],
            ty::Uint(x) => vec![("k", s("uint")), ("b", J::I(x.bit_width().unwrap_or(64) as i128))],
            ty::Float(_) => vec![("k", s("float"))],
            ty::Adt(a, args) => { self.adt(a.did()); let p = self.path(a.did()); let g = self.gargs(args); vec![("k", s("adt")), ("p", J::S(p)), ("a", g)] }
            ty::Str => vec![("k", s("str"))],
            ty::Array(e, c) => { let e = self.ty(e); vec![("k", s("array")), ("e", J::I(e as i128)), ("n", c.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or_else(|| J::S(format!("{c}"))))] }
            ty::Slice(e) => { let e = self.ty(e); vec![("k", s("slice")), ("e", J::I(e as i128))] }
            ty::RawPtr(e, m) => { let e = self.ty(e); vec![("k", s("ptr")), ("e", J::I(e as i128)), ("m", J::B(m.is_mut()))] }
            ty::Ref(_, e, m) => { let e = self.ty(e); vec![("k", s("ref")), ("e", J::I(e as i128)), ("m", J::B(m.is_mut()))] }
            ty::FnDef(d, args) => { let p = self.path(d); let g = self.gargs(args.skip_binder()); vec![("k", s("fndef")), ("p", J::S(p)), ("a", g)] }
            ty::FnPtr(..) => vec![("k", s("fnptr")), ("s", J::S(with_no_trimmed_paths!(t.to_string())))],
            ty::Closure(d, args) => {
                let p = self.path(d);
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|u| J::I(self.ty(u) as i128)).collect();
                vec![("k", s("closure")), ("p", J::S(p)), ("u", J::A(ups))]
            }
            ty::Never => vec![("k", s("never"))],
            ty::Tuple(ts) => { let v = ts.iter().map(|x| J::I(self.ty(x) as i128)).collect(); vec![("k", s("tuple")), ("a", J::A(v))] }
            ty::Param(p) => vec![("k", s("param")), ("n", J::S(p.name.to_string()))],
            ty::Dynamic(..) => vec![("k", s("dyn")), ("s", J::S(with_no_trimmed_paths!(t.to_string())))],
            _ => vec![("k", s("other")), ("s", J::S(with_no_trimmed_paths!(t.to_string())))],
        };
        self.tys[i] = J::O(j);
        i
    }
    fn func(&mut self, did: DefId) -> J {
        let tcx = self.tcx;
        let te = TypingEnv::post_analysis(tcx, did);
        let body = tcx.optimized_mir(did);
        let promoted = tcx.promoted_mir(did);
        let parent_impl = tcx.opt_parent(did).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { .. }));
        let of_trait = parent_impl.and_then(|p| if matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true }) { Some(self.path(tcx.impl_trait_ref(p).skip_binder().def_id)) } else { None });
        let vis = if tcx.def_kind(did) == DefKind::Closure { false } else { tcx.visibility(did).is_public() };
        let sm = tcx.sess.source_map();
        let hi = sm.lookup_char_pos(body.span.source_callsite().hi()).line;
        let mut v = vec![
            ("id", J::S(self.path(did))),
            ("n", J::S(self.pretty(did))),
            ("closure", J::B(tcx.def_kind(did) == DefKind::Closure)),
            ("pub", J::B(vis)),
            ("trait", of_trait.map(J::S).unwrap_or(J::N)),
            ("span", self.span(tcx.def_span(did))),
            ("endline", J::I(hi as i128)),
        ];
        v.extend(self.body(body, te, did));
        let pr = promoted.iter().map(|b| J::O(self.body(b, te, did))).collect();
        v.push(("promoted", J::A(pr)));
        J::O(v)
    }
    fn body(&mut self, b: &Body<'tcx>, te: TypingEnv<'tcx>, did: DefId) -> Vec<(&'static str, J)> {
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        let mut upv = vec![];
        for vd in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vd.value {
                if p.projection.is_empty() { names[p.local.index()].get_or_insert(vd.name.to_string()); }
                else if p.local.index() == 1 { upv.push(J::A(vec![J::S(vd.name.to_string()), self.place(b, p)])); }
            }
        }
        let locals = b.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.ty(d.ty);
            J::A(vec![J::I(t as i128), names[l.index()].clone().map(J::S).unwrap_or(J::N)])
        }).collect();
        let blocks = b.basic_blocks.iter().map(|bb| {
            if bb.is_cleanup { return J::N; }
            let ss = bb.statements.iter().filter_map(|s| self.stmt(b, s, te, did)).collect();
            let t = self.term(b, bb.terminator(), te, did);
            J::A(vec![J::A(ss), t])
        }).collect();
        vec![("argc", J::I(b.arg_count as i128)), ("locals", J::A(locals)), ("upv", J::A(upv)), ("bbs", J::A(blocks))]
    }
    fn stmt(&mut self, b: &Body<'tcx>, s: &Statement<'tcx>, te: TypingEnv<'tcx>, did: DefId) -> Option<J> {
        match &s.kind {
            StatementKind::Assign(bx) => {
                let (p, r) = &**bx;
                let pj = self.place(b, p);
                let rj = self.rvalue(b, r, te, did);
                Some(J::A(vec![J::s("="), pj, rj, self.span(s.source_info.span)]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(J::A(vec![J::s("setdiscr"), self.place(b, place), J::I(variant_index.index() as i128), self.span(s.source_info.span)]))
            }
            StatementKind::Intrinsic(i) => Some(J::A(vec![J::s("intrinsic"), J::S(format!("{i:?}")), J::N, self.span(s.source_info.span)])),
            _ => None,
        }
    }
    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        if p.projection.is_empty() { return J::I(p.local.index() as i128); }
        let mut v = vec![J::I(p.local.index() as i128)];
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            a.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.index().to_string(),
                    };
                    let owner = match pt.ty.kind() {
                        ty::Adt(a, _) => { J::S(self.path(a.did())) }
                        _ => J::N,
                    };
                    J::A(vec![J::s("f"), J::S(nm), J::I(f.index() as i128), owner])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.index() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![J::s("c"), J::I(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => {
                    let nm = match pt.ty.kind() { ty::Adt(a, _) => a.variant(vi).name.to_string(), _ => vi.index().to_string() };
                    J::A(vec![J::s("v"), J::S(nm), J::I(vi.index() as i128)])
                }
                _ => J::s("?"),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(v)
    }
    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>, te: TypingEnv<'tcx>, did: DefId) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("cp"), self.place(b, p)]),
            Operand::Move(p) => J::A(vec![J::s("mv"), self.place(b, p)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.cst(&c.const_, te, c.span, did)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![J::s("rt"), J::S(format!("{o:?}"))]),
        }
    }
    fn cst(&mut self, c: &mir::Const<'tcx>, te: TypingEnv<'tcx>, sp: Span, _did: DefId) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut v = vec![("t", J::I(ti as i128))];
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted { v.push(("promoted", J::I(p.index() as i128))); return J::O(v); }
            v.push(("path", J::S(self.path(u.def))));
        }
        if let mir::Const::Ty(_, ct) = c { if let ty::ConstKind::Param(p) = ct.kind() { v.push(("param", J::S(p.name.to_string()))); return J::O(v); } }
        match *t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                v.push(("fn", J::S(self.path(d))));
                let g = self.gargs(args);
                v.push(("ga", g));
                if let Some(tr) = tcx.opt_parent(d).filter(|p| matches!(tcx.def_kind(*p), DefKind::Trait)) {
                    v.push(("tr", J::S(self.path(tr))));
                }
                let ra = tcx.normalize_erasing_regions(te, ty::Unnormalized::new_wip(args));
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, ra) {
                    let k = match inst.def { InstanceKind::Item(_) => "item", InstanceKind::Virtual(..) => "virtual", InstanceKind::Intrinsic(..) => "intrinsic", InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr", InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "once", InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone", _ => "other" };
                    v.push(("rk", J::s(k)));
                    v.push(("r", J::S(self.path(inst.def_id()))));
                    if matches!(inst.def, InstanceKind::Item(_)) { let g = self.gargs(inst.args); v.push(("rga", g)); }
                }
                return J::O(v);
            }
            _ => {}
        }
        if let Ok(val) = c.eval(tcx, te, sp) {
            let j = self.val(val, t, te, 0);
            v.push(("v", j));
        }
        J::O(v)
    }
    /// Structured constant value.
    fn val(&mut self, val: ConstValue, t: Ty<'tcx>, te: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 { return J::s("?deep"); }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(si) = val.try_to_scalar_int() {
                    let bits = si.to_bits(si.size());
                    if let ty::Int(_) = t.kind() { return J::I(si.size().sign_extend(bits) as i128); }
                    if bits > i128::MAX as u128 { return J::S(format!("{bits}")); }
                    return J::I(bits as i128);
                }
                // read from memory
                if let ConstValue::Indirect { alloc_id, offset } = val {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        if let Ok(l) = tcx.layout_of(te.as_query_input(t)) {
                            let s = offset.bytes_usize();
                            let e = s + l.size.bytes_usize();
                            let by = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(s..e);
                            let mut x: u128 = 0;
                            for (i, b) in by.iter().enumerate().take(16) { x |= (*b as u128) << (8 * i); }
                            return J::I(x as i128);
                        }
                    }
                }
                J::s("?scalar")
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match inner.kind() {
                    ty::Str | ty::Slice(_) if matches!(inner.kind(), ty::Str) || matches!(inner.kind(), ty::Slice(e) if e.is_integral() && e.primitive_size(tcx).bytes() == 1) => {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            return if inner.is_str() { J::O(vec![("str", J::S(String::from_utf8_lossy(b).into_owned()))]) }
                            else { J::O(vec![("ref", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]) };
                        }
                        J::s("?slice")
                    }
                    ty::Slice(e) => {
                        if let ConstValue::Slice { alloc_id, meta } = val {
                            let at = Ty::new_array(tcx, *e, meta);
                            return J::O(vec![("ref", self.val(ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO }, at, te, depth + 1))]);
                        }
                        J::s("?slice2")
                    }
                    ty::Dynamic(..) => J::s("?dyn"),
                    _ => {
                        if let Some(Scalar::Ptr(p, _)) = val.try_to_scalar() {
                            let (prov, off) = p.into_raw_parts();
                            match tcx.global_alloc(prov.alloc_id()) {
                                GlobalAlloc::Static(d) => return J::O(vec![("static", J::S(self.path(d)))]),
                                GlobalAlloc::Memory(_) => {
                                    let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                    return J::O(vec![("ref", self.val(iv, *inner, te, depth + 1))]);
                                }
                                _ => return J::s("?alloc"),
                            }
                        }
                        J::s("?ref")
                    }
                }
            }
            ty::FnPtr(..) => {
                if let Some(Scalar::Ptr(p, _)) = val.try_to_scalar() {
                    if let GlobalAlloc::Function { instance, .. } = tcx.global_alloc(p.provenance.alloc_id()) {
                        return J::O(vec![("fnptr", J::S(self.path(instance.def_id())))]);
                    }
                }
                J::s("?fnptr")
            }
            ty::FnDef(d, _) => J::O(vec![("fnptr", J::S(self.path(*d)))]),
            ty::Array(e, n) if e.is_integral() && e.primitive_size(tcx).bytes() == 1 => {
                if let (ConstValue::Indirect { alloc_id, offset }, Some(n)) = (val, n.try_to_target_usize(tcx)) {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let s = offset.bytes_usize();
                        let by = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(s..s + n as usize);
                        if by.len() > 64 && by.iter().all(|x| *x == by[0]) { return J::O(vec![("rep", J::I(by[0] as i128)), ("n", J::I(n as i128))]); }
                        return J::O(vec![("bytes", J::A(by.iter().map(|x| J::I(*x as i128)).collect()))]);
                    }
                }
                if let Some(si) = val.try_to_scalar_int() { let bits = si.to_bits(si.size()); let k = si.size().bytes_usize();
                    return J::O(vec![("bytes", J::A((0..k).map(|i| J::I(((bits >> (8 * i)) & 0xff) as i128)).collect()))]); }
                J::s("?bytes")
            }
            ty::Array(..) | ty::Tuple(_) | ty::Adt(..) => {
                if let ty::Array(_, n) = t.kind() { if n.try_to_target_usize(tcx).map_or(true, |x| x > 300) { return J::s("?bigarray"); } }
                if let ty::Adt(a, _) = t.kind() { if a.is_union() { return J::s("?union"); } }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    let fs: Vec<J> = dc.fields.iter().map(|(v, t)| self.val(*v, *t, te, depth + 1)).collect();
                    match t.kind() {
                        ty::Adt(a, _) => {
                            let vi = dc.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let p = self.path(a.did());
                            let dv = if a.is_enum() { a.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                            return J::O(vec![("adt", J::S(p)), ("vi", J::I(vi.index() as i128)), ("vn", J::S(a.variant(vi).name.to_string())), ("dv", J::I(dv)), ("f", J::A(fs))]);
                        }
                        _ => return J::O(vec![("seq", J::A(fs))]),
                    }
                }
                J::s("?agg")
            }
            _ => J::s("?"),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>, te: TypingEnv<'tcx>, did: DefId) -> J {
        match r {
            Rvalue::Use(o, _) => self.operand(b, o, te, did),
            Rvalue::Repeat(o, n) => { let oj = self.operand(b, o, te, did); J::A(vec![J::s("rep"), oj, n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or_else(|| J::S(format!("{n}")))]) }
            Rvalue::Ref(_, bk, p) => { let m = matches!(bk, BorrowKind::Mut { .. }); let pj = self.place(b, p); J::A(vec![J::s(if m { "&m" } else { "&" }), pj]) }
            Rvalue::RawPtr(_, p) => { let pj = self.place(b, p); J::A(vec![J::s("&raw"), pj]) }
            Rvalue::Reborrow(_, m, p) => { let pj = self.place(b, p); J::A(vec![J::s(if m.is_mut() { "&m" } else { "&" }), J::A(vec![pj])]) }
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{k:?}");
                let from = o.ty(b, self.tcx);
                let f = self.ty(from);
                let t = self.ty(*t);
                let o = self.operand(b, o, te, did);
                J::A(vec![J::s("cast"), J::S(ks), o, J::I(f as i128), J::I(t as i128)])
            }
            Rvalue::BinaryOp(op, bx) => { let t = bx.0.ty(b, self.tcx); let ti = self.ty(t); let x = self.operand(b, &bx.0, te, did); let y = self.operand(b, &bx.1, te, did); J::A(vec![J::s("bin"), J::S(format!("{op:?}")), x, y, J::I(ti as i128)]) }
            Rvalue::UnaryOp(op, o) => { let t = o.ty(b, self.tcx); let ti = self.ty(t); let o = self.operand(b, o, te, did); J::A(vec![J::s("un"), J::S(format!("{op:?}")), o, J::I(ti as i128)]) }
            Rvalue::Discriminant(p) => { let pt = p.ty(b, self.tcx).ty; let t = self.ty(pt); let p = self.place(b, p); J::A(vec![J::s("discr"), p, J::I(t as i128)]) }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("cp"), self.place(b, p)]),
            Rvalue::Aggregate(k, ops) => {
                let os = J::A(ops.iter().map(|o| self.operand(b, o, te, did)).collect());
                match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::A(vec![J::s("agg"), J::s("array"), os, J::I(t as i128)]) }
                    AggregateKind::Tuple => J::A(vec![J::s("agg"), J::s("tuple"), os]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        self.adt(*d);
                        let a = self.tcx.adt_def(*d);
                        let p = self.path(*d);
                        J::A(vec![J::s("agg"), J::s("adt"), os, J::S(p), J::I(vi.index() as i128), J::S(a.variant(*vi).name.to_string())])
                    }
                    AggregateKind::Closure(d, _) => { let p = self.path(*d); J::A(vec![J::s("agg"), J::s("closure"), os, J::S(p)]) }
                    _ => J::A(vec![J::s("agg"), J::s("other"), os]),
                }
            }
            _ => J::A(vec![J::s("?"), J::S(format!("{r:?}"))]),
        }
    }
    fn term(&mut self, b: &Body<'tcx>, t: &Terminator<'tcx>, te: TypingEnv<'tcx>, did: DefId) -> J {
        let sp = self.span(t.source_info.span);
        let i = |x: BasicBlock| J::I(x.index() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), i(*target)]),
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), i(*real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), i(*real_target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(b, self.tcx);
                let ti = self.ty(ty);
                let o = self.operand(b, discr, te, did);
                let ts = targets.iter().map(|(v, bb)| J::A(vec![J::I(v as i128), i(bb)])).collect();
                J::A(vec![J::s("switch"), o, J::A(ts), i(targets.otherwise()), J::I(ti as i128), sp])
            }
            TerminatorKind::Return => J::A(vec![J::s("return"), sp]),
            TerminatorKind::Unreachable => J::A(vec![J::s("unreachable"), sp]),
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(b, self.tcx).ty;
                let ti = self.ty(pt);
                let p = self.place(b, place);
                J::A(vec![J::s("drop"), p, i(*target), J::I(ti as i128), sp])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = self.operand(b, func, te, did);
                let a = J::A(args.iter().map(|x| self.operand(b, &x.node, te, did)).collect());
                let d = self.place(b, destination);
                let fty = func.ty(b, self.tcx);
                let ft = self.ty(fty);
                J::A(vec![J::s("call"), f, a, d, target.map(i).unwrap_or(J::N), sp, J::I(ft as i128)])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(b, cond, te, did);
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => { let l = self.operand(b, len, te, did); let x = self.operand(b, index, te, did); J::A(vec![J::s("bounds"), l, x]) }
                    AssertKind::Overflow(op, x, y) => { let t = x.ty(b, self.tcx); let ti = self.ty(t); let x = self.operand(b, x, te, did); let y = self.operand(b, y, te, did); J::A(vec![J::s("overflow"), J::S(format!("{op:?}")), x, y, J::I(ti as i128)]) }
                    AssertKind::DivisionByZero(x) | AssertKind::RemainderByZero(x) => { let x = self.operand(b, x, te, did); J::A(vec![J::s("div0"), x]) }
                    m => J::A(vec![J::s("other"), J::S(format!("{m:?}"))]),
                };
                J::A(vec![J::s("assert"), c, J::B(*expected), m, i(*target), sp])
            }
            k => J::A(vec![J::s("other"), J::S(format!("{k:?}")), sp]),
        }
    }
}
