// MIR fact extractor: injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
// For every workspace crate it writes one JSON file with all MIR bodies (resolved callees, evaluated
// constants, named places), ADT definitions and constant tables into $MIRFACTS_DIR.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, Allocation, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::layout::LayoutOf;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

struct Cb;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn tys(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{t}"))
    }
    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn file(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let f = self.tcx.sess.source_map().lookup_char_pos(sp.lo()).file;
        format!("{}", f.name.prefer_local_unconditionally())
    }

    // ---- constants -------------------------------------------------------------------------
    fn read_scalar_bits(&self, a: &Allocation, off: Size, size: Size) -> Option<u128> {
        let o = off.bytes() as usize;
        let n = size.bytes() as usize;
        if o + n > a.len() || n > 16 {
            return None;
        }
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() {
            v |= (*x as u128) << (8 * i);
        }
        Some(v)
    }
    fn ptr_at(&self, a: &Allocation, off: Size) -> Option<(AllocId, Size)> {
        let prov = a.provenance().ptrs().get(&off)?;
        let addend = self.read_scalar_bits(a, off, Size::from_bytes(8))?;
        Some((prov.alloc_id(), Size::from_bytes(addend as u64)))
    }
    fn decode_ptr(&self, id: AllocId, off: Size, ty: Ty<'tcx>, depth: usize) -> String {
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(m)) => self.decode(m.inner(), off, ty, depth + 1),
            Some(GlobalAlloc::Static(d)) => format!("{{\"static\":{}}}", js(&self.path(d))),
            Some(GlobalAlloc::Function { instance }) => format!("{{\"fnptr\":{}}}", js(&self.path(instance.def_id()))),
            _ => "{\"opaque\":\"alloc\"}".into(),
        }
    }
    fn scalar(&self, v: u128, size: u64, ty: Ty<'tcx>) -> String {
        match ty.kind() {
            ty::Bool => format!("{{\"bool\":{}}}", v != 0),
            ty::Char => format!("{{\"char\":{}}}", v),
            ty::Int(_) => {
                let sh = 128 - size * 8;
                let s = if sh == 128 { 0 } else { ((v << sh) as i128) >> sh };
                format!("{{\"int\":{},\"ty\":{}}}", s, js(&self.tys(ty)))
            }
            _ => format!("{{\"int\":{},\"ty\":{}}}", v, js(&self.tys(ty))),
        }
    }
    fn decode(&self, a: &Allocation, off: Size, ty: Ty<'tcx>, depth: usize) -> String {
        if depth > 12 {
            return "{\"opaque\":\"depth\"}".into();
        }
        let opaque = || format!("{{\"opaque\":{}}}", js(&self.tys(ty)));
        let tcx = self.tcx;
        let cx = ty::layout::LayoutCx::new(tcx, self.env);
        let Ok(layout) = cx.layout_of(ty) else { return opaque() };
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                match self.read_scalar_bits(a, off, layout.size) {
                    Some(v) => self.scalar(v, layout.size.bytes(), ty),
                    None => opaque(),
                }
            }
            ty::FnDef(d, args) => self.fndef(*d, args.skip_binder()),
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let Some((id, o)) = self.ptr_at(a, off) else { return opaque() };
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let Some(n) = self.read_scalar_bits(a, off + Size::from_bytes(8), Size::from_bytes(8)) else {
                            return opaque();
                        };
                        self.decode_slice(id, o, *inner, n as u64, depth)
                    }
                    _ => format!("{{\"ref\":{}}}", self.decode_ptr(id, o, *inner, depth)),
                }
            }
            ty::Array(el, n) => {
                let n = match (n.try_to_target_usize(tcx), &layout.fields) {
                    (Some(n), _) => n,
                    (None, rustc_abi::FieldsShape::Array { count, .. }) => *count,
                    _ => return opaque(),
                };
                self.decode_elems(a, off, *el, n, depth)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = (0..ts.len())
                    .map(|i| self.decode(a, off + layout.fields.offset(i), ts[i], depth + 1))
                    .collect();
                format!("{{\"tuple\":{}}}", arr(&v))
            }
            ty::Closure(d, _) => format!("{{\"closure\":{}}}", js(&self.path(*d))),
            ty::Adt(def, args) => {
                let vidx = if def.is_enum() {
                    match &layout.variants {
                        Variants::Single { index } => *index,
                        Variants::Empty => return opaque(),
                        Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                            let toff = off + layout.fields.offset(tag_field.as_usize());
                            let tsize = tag.size(&tcx);
                            let is_ptr = a.provenance().ptrs().get(&toff).is_some();
                            let Some(mut raw) = self.read_scalar_bits(a, toff, tsize) else { return opaque() };
                            if is_ptr && raw == 0 {
                                raw = 1 << 20;
                            }
                            match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut f = None;
                                    for (i, d) in def.discriminants(tcx) {
                                        let mask = if tsize.bits() == 128 { u128::MAX } else { (1u128 << tsize.bits()) - 1 };
                                        if d.val & mask == raw {
                                            f = Some(i);
                                        }
                                    }
                                    match f {
                                        Some(i) => i,
                                        None => return opaque(),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let mask = if tsize.bits() == 128 { u128::MAX } else { (1u128 << tsize.bits()) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    if !is_ptr && rel <= cnt {
                                        VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            }
                        }
                    }
                } else if def.is_struct() {
                    VariantIdx::from_u32(0)
                } else {
                    return opaque();
                };
                let vl = if def.is_enum() {
                    layout.for_variant(&cx, vidx)
                } else {
                    layout
                };
                let vd = def.variant(vidx);
                let fs: Vec<String> = vd
                    .fields
                    .iter_enumerated()
                    .map(|(i, f)| {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        format!(
                            "[{},{}]",
                            js(f.name.as_str()),
                            self.decode(a, off + vl.fields.offset(i.as_usize()), ft, depth + 1)
                        )
                    })
                    .collect();
                format!(
                    "{{\"adt\":{},\"variant\":{},\"fields\":{}}}",
                    js(&self.path(def.did())),
                    js(vd.name.as_str()),
                    arr(&fs)
                )
            }
            _ => opaque(),
        }
    }
    fn decode_elems(&self, a: &Allocation, off: Size, el: Ty<'tcx>, n: u64, depth: usize) -> String {
        let cx = ty::layout::LayoutCx::new(self.tcx, self.env);
        let Ok(l) = cx.layout_of(el) else { return "{\"opaque\":\"elem\"}".into() };
        if el == self.tcx.types.u8 {
            let o = off.bytes() as usize;
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
            let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
            return format!("{{\"bytes\":{}}}", arr(&v));
        }
        if n > 4096 {
            return "{\"opaque\":\"big\"}".into();
        }
        let v: Vec<String> = (0..n).map(|i| self.decode(a, off + l.size * i, el, depth + 1)).collect();
        format!("{{\"array\":{}}}", arr(&v))
    }
    fn decode_slice(&self, id: AllocId, off: Size, inner: Ty<'tcx>, n: u64, depth: usize) -> String {
        let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(id) else {
            return "{\"opaque\":\"slice\"}".into();
        };
        let m = m.inner();
        match inner.kind() {
            ty::Str => {
                let o = off.bytes() as usize;
                let b = m.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                format!("{{\"str\":{}}}", js(&String::from_utf8_lossy(b)))
            }
            ty::Slice(el) => self.decode_elems(m, off, *el, n, depth),
            _ => "{\"opaque\":\"slice\"}".into(),
        }
    }
    fn constval(&self, v: ConstValue, ty: Ty<'tcx>) -> String {
        match v {
            ConstValue::ZeroSized => match ty.kind() {
                ty::FnDef(d, args) => self.fndef(*d, args.skip_binder()),
                ty::Closure(d, _) => format!("{{\"closure\":{}}}", js(&self.path(*d))),
                ty::Tuple(ts) if ts.is_empty() => "{\"tuple\":[]}".into(),
                ty::Adt(d, _) if d.is_struct() => format!(
                    "{{\"adt\":{},\"variant\":{},\"fields\":[]}}",
                    js(&self.path(d.did())),
                    js(d.non_enum_variant().name.as_str())
                ),
                ty::Adt(d, _) if d.is_enum() => format!("{{\"zst\":{}}}", js(&self.path(d.did()))),
                _ => format!("{{\"zst\":{}}}", js(&self.tys(ty))),
            },
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                match ty.kind() {
                    ty::Adt(def, _) if def.is_enum() => {
                        for (vi, d) in def.discriminants(self.tcx) {
                            let mask = if size.bits() == 128 { u128::MAX } else { (1u128 << size.bits()) - 1 };
                            if d.val & mask == bits && def.variant(vi).fields.is_empty() {
                                return format!(
                                    "{{\"adt\":{},\"variant\":{},\"fields\":[]}}",
                                    js(&self.path(def.did())),
                                    js(def.variant(vi).name.as_str())
                                );
                            }
                        }
                        // niche-encoded: go through an allocation-free decode is not possible; report raw
                        format!("{{\"rawenum\":{},\"bits\":{}}}", js(&self.tys(ty)), bits)
                    }
                    _ => self.scalar(bits, size.bytes(), ty),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match ty.kind() {
                    ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                        format!("{{\"ref\":{}}}", self.decode_ptr(prov.alloc_id(), off, *inner, 0))
                    }
                    _ => format!("{{\"opaque\":{}}}", js(&self.tys(ty))),
                }
            }
            ConstValue::Slice { alloc_id, meta } => match ty.kind() {
                ty::Ref(_, inner, _) => self.decode_slice(alloc_id, Size::ZERO, *inner, meta, 0),
                _ => format!("{{\"opaque\":{}}}", js(&self.tys(ty))),
            },
            ConstValue::Indirect { alloc_id, offset } => match self.tcx.try_get_global_alloc(alloc_id) {
                Some(GlobalAlloc::Memory(m)) => self.decode(m.inner(), offset, ty, 0),
                _ => format!("{{\"opaque\":{}}}", js(&self.tys(ty))),
            },
        }
    }
    fn fndef(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut resolved = String::new();
        let eargs = self.tcx.erase_and_anonymize_regions(args);
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, d, eargs) {
                let rd = inst.def_id();
                if rd != d {
                    resolved = self.path(rd);
                }
                if let ty::InstanceKind::Virtual(..) = inst.def {
                    resolved = format!("dyn {}", self.path(rd));
                }
            }
        }
        let a: Vec<String> = args
            .iter()
            .filter_map(|g| match g.kind() {
                ty::GenericArgKind::Type(t) => Some(js(&self.tys(t))),
                ty::GenericArgKind::Const(c) => Some(js(&with_no_trimmed_paths!(format!("{c}")))),
                _ => None,
            })
            .collect();
        let kind = match self.tcx.def_kind(d) {
            DefKind::Ctor(..) => "ctor",
            _ => "fn",
        };
        let is_unsafe = match self.tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => self.tcx.fn_sig(d).skip_binder().safety().is_unsafe(),
            _ => false,
        };
        let mut s = format!("{{\"{kind}\":{},\"args\":{}", js(&self.path(d)), arr(&a));
        if !resolved.is_empty() {
            let _ = write!(s, ",\"res\":{}", js(&resolved));
        }
        if is_unsafe {
            s.push_str(",\"unsafe\":true");
        }
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", js(&self.path(t)));
        }
        s.push('}');
        s
    }
    fn constant(&self, c: &mir::ConstOperand<'tcx>) -> String {
        let ty = c.const_.ty();
        if let ty::FnDef(d, args) = ty.kind() {
            return self.fndef(*d, args.skip_binder());
        }
        let mut name = String::new();
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            name = match u.promoted {
                Some(p) => format!("{}::promoted#{}", self.path(u.def), p.as_usize()),
                None => self.path(u.def),
            };
        }
        let val = match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => self.constval(v, ty),
            Err(_) => format!("{{\"opaque\":{}}}", js(&self.tys(ty))),
        };
        if name.is_empty() {
            val
        } else {
            format!("{{\"named\":{},\"val\":{},\"ty\":{}}}", js(&name), val, js(&self.tys(ty)))
        }
    }

    // ---- MIR -------------------------------------------------------------------------------
    fn place(&self, body: &mir::Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => out.push("\"*\"".to_string()),
                ProjectionElem::Field(..) if self.boxlike(pt.ty) => {}
                ProjectionElem::Field(f, _) => {
                    out.push(format!("[\"f\",{},{}]", f.as_usize(), js(&self.field_name(pt, f))))
                }
                ProjectionElem::Index(l) => out.push(format!("[\"i\",{}]", l.as_usize())),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    out.push(format!("[\"ci\",{offset},{from_end}]"))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    out.push(format!("[\"ss\",{from},{to},{from_end}]"))
                }
                ProjectionElem::Downcast(s, v) => {
                    let n = s.map(|s| s.to_string()).unwrap_or_default();
                    out.push(format!("[\"d\",{},{}]", js(&n), v.as_usize()));
                }
                _ => {}
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), arr(&out))
    }
    // Box<T> derefs are elaborated to raw pointer accesses; keep them transparent.
    fn boxlike(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(def, _) => {
                t.is_box() || matches!(self.path(def.did()).as_str(), "std::ptr::Unique" | "std::ptr::NonNull" | "core::ptr::Unique" | "core::ptr::NonNull" | "std::ptr::unique::Unique")
            }
            _ => false,
        }
    }
    fn field_name(&self, pt: mir::PlaceTy<'tcx>, f: FieldIdx) -> String {
        match pt.ty.kind() {
            ty::Adt(def, _) => {
                let v = match pt.variant_index {
                    Some(v) => def.variant(v),
                    None if def.is_enum() => return f.as_usize().to_string(),
                    None => def.non_enum_variant(),
                };
                v.fields[f].name.to_string()
            }
            ty::Closure(d, _) => self
                .tcx
                .closure_saved_names_of_captured_variables(*d)
                .get(f)
                .map(|s| s.to_string())
                .unwrap_or_else(|| f.as_usize().to_string()),
            _ => f.as_usize().to_string(),
        }
    }
    fn operand(&self, body: &mir::Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c)),
            Operand::RuntimeChecks(_) => "[\"k\",{\"bool\":true}]".into(),
        }
    }
    fn rvalue(&self, body: &mir::Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(body, o),
                js(&with_no_trimmed_paths!(format!("{n}")))
            ),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    mir::BorrowKind::Mut { .. } => "mut",
                    mir::BorrowKind::Fake(_) => "fake",
                    _ => "shared",
                };
                format!("[\"ref\",\"{m}\",{}]", self.place(body, p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",\"{}\",{}]", if m.is_mut() { "mut" } else { "shared" }, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                js(&format!("{k:?}")),
                self.operand(body, o),
                js(&self.tys(*t))
            ),
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",\"{op:?}\",{},{}]",
                self.operand(body, &b.0),
                self.operand(body, &b.1)
            ),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{op:?}\",{}]", self.operand(body, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let mut vs = vec![];
                let mut name = self.tys(t);
                if let ty::Adt(def, _) = t.kind() {
                    name = self.path(def.did());
                    if def.is_enum() {
                        for (vi, d) in def.discriminants(self.tcx) {
                            vs.push(format!("[{},{}]", d.val, js(def.variant(vi).name.as_str())));
                        }
                    }
                }
                format!("[\"discr\",{},{},{}]", self.place(body, p), js(&name), arr(&vs))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                let k = match &**k {
                    mir::AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    mir::AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    mir::AggregateKind::Adt(d, v, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let vd = def.variant(*v);
                        let mut fs: Vec<String> = vd.fields.iter().map(|f| js(f.name.as_str())).collect();
                        if let Some(a) = active {
                            fs = vec![fs[a.as_usize()].clone()];
                        }
                        format!(
                            "[\"adt\",{},{},{}]",
                            js(&self.path(*d)),
                            js(vd.name.as_str()),
                            arr(&fs)
                        )
                    }
                    mir::AggregateKind::Closure(d, _) | mir::AggregateKind::Coroutine(d, _) | mir::AggregateKind::CoroutineClosure(d, _) => {
                        let names: Vec<String> = self
                            .tcx
                            .closure_saved_names_of_captured_variables(*d)
                            .iter()
                            .map(|s| js(s.as_str()))
                            .collect();
                        format!("[\"closure\",{},{}]", js(&self.path(*d)), arr(&names))
                    }
                    mir::AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", k, arr(&o))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
        }
    }
    fn body(&self, body: &mir::Body<'tcx>, name: &str, kind: &str, extra: &str) -> String {
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"path\":{},\"kind\":{},{}\"file\":{},\"line\":{},\"argc\":{},\"locals\":[",
            js(name),
            js(kind),
            extra,
            js(&self.file(body.span)),
            self.line(body.span),
            body.arg_count
        );
        let mut dbg: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    dbg[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            if l.as_usize() > 0 {
                s.push(',');
            }
            let _ = write!(
                s,
                "[{},{}]",
                js(&self.tys(d.ty)),
                match &dbg[l.as_usize()] {
                    Some(n) => js(n),
                    None => "null".into(),
                }
            );
        }
        s.push_str("],\"blocks\":[");
        for (bb, d) in body.basic_blocks.iter_enumerated() {
            if bb.as_usize() > 0 {
                s.push(',');
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &d.statements {
                let line = self.line(st.source_info.span);
                let t = match &st.kind {
                    StatementKind::Assign(b) => {
                        format!("[{},{},{}]", self.place(body, &b.0), self.rvalue(body, &b.1), line)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "[{},[\"setdiscr\",{}],{}]",
                        self.place(body, place),
                        variant_index.as_usize(),
                        line
                    ),
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&t);
            }
            s.push_str("],\"t\":");
            let t = d.terminator();
            let line = self.line(t.source_info.span);
            let tt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        self.operand(body, discr),
                        arr(&v),
                        targets.otherwise().as_usize(),
                        js(&self.tys(discr.ty(body, self.tcx))),
                        line
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(body, place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.operand(body, &a.node)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        self.operand(body, func),
                        arr(&a),
                        self.place(body, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        line
                    )
                }
                TerminatorKind::Assert { target, msg, .. } => {
                    let m = format!("{msg:?}");
                    format!("[\"assert\",{},{},{}]", target.as_usize(), js(&m), line)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            s.push_str(&tt);
            if d.is_cleanup {
                s.push_str(",\"cleanup\":true");
            }
            s.push('}');
        }
        s.push_str("]}");
        s
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let Ok(dir) = std::env::var("MIRFACTS_DIR") else { return };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    if krate.starts_with("build_script") {
        return;
    }
    let mut bodies = vec![];
    let mut consts = vec![];
    for &ld in tcx.mir_keys(()).iter() {
        let d: DefId = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d) };
        let name = cx.path(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let body = tcx.optimized_mir(d);
                let mut extra = String::new();
                let parent = tcx.local_parent(ld);
                if let DefKind::Impl { of_trait } = tcx.def_kind(parent.to_def_id()) {
                    let st = tcx.type_of(parent.to_def_id()).instantiate_identity().skip_norm_wip();
                    let _ = write!(extra, "\"self_ty\":{},", js(&cx.tys(st)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(parent.to_def_id());
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(extra, "\"trait\":{},", js(&cx.path(tr.def_id)));
                        let _ = write!(extra, "\"trait_full\":{},", js(&with_no_trimmed_paths!(format!("{tr}"))));
                    }
                } else if let DefKind::Trait = tcx.def_kind(parent.to_def_id()) {
                    let _ = write!(extra, "\"in_trait\":{},", js(&cx.path(parent.to_def_id())));
                }
                if kind != DefKind::Closure {
                    let sig = tcx.fn_sig(d).skip_binder();
                    let _ = write!(
                        extra,
                        "\"vis\":{},\"unsafe\":{},\"sig\":{},",
                        js(&format!("{:?}", tcx.visibility(d))),
                        sig.safety().is_unsafe(),
                        js(&with_no_trimmed_paths!(format!("{sig}")))
                    );
                    let names: Vec<String> = tcx.generics_of(d).own_params.iter().map(|p| js(p.name.as_str())).collect();
                    let _ = write!(extra, "\"generics\":{},", arr(&names));
                    let preds: Vec<String> = tcx
                        .param_env(d)
                        .caller_bounds()
                        .map(|p| js(&with_no_trimmed_paths!(format!("{p}"))))
                        .collect();
                    let _ = write!(extra, "\"preds\":{},", arr(&preds));
                } else {
                    let _ = write!(extra, "\"parent\":{},", js(&cx.path(tcx.typeck_root_def_id(d))));
                }
                let mut ub = UnsafeBlocks { tcx, lines: vec![] };
                if let Some(hb) = tcx.hir_maybe_body_owned_by(ld) {
                    rustc_hir::intravisit::walk_body(&mut ub, hb);
                }
                let lines: Vec<String> = ub.lines.iter().map(|l| l.to_string()).collect();
                let _ = write!(extra, "\"unsafe_blocks\":{},", arr(&lines));
                let k = format!("{kind:?}");
                bodies.push(cx.body(body, &name, &k, &extra));
                for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                    bodies.push(cx.body(p, &format!("{name}::promoted#{}", i.as_usize()), "promoted", ""));
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut trait_impl = String::new();
                let parent = tcx.local_parent(ld);
                if let DefKind::Impl { of_trait } = tcx.def_kind(parent.to_def_id()) {
                    let st = tcx.type_of(parent.to_def_id()).instantiate_identity().skip_norm_wip();
                    let _ = write!(trait_impl, ",\"self_ty\":{}", js(&cx.tys(st)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(parent.to_def_id()).instantiate_identity().skip_norm_wip();
                        let _ = write!(trait_impl, ",\"trait\":{}", js(&cx.path(tr.def_id)));
                    }
                }
                let generic = tcx.generics_of(d).requires_monomorphization(tcx);
                let val = if generic {
                    "{\"opaque\":\"generic\"}".to_string()
                } else if matches!(kind, DefKind::Static { .. }) {
                    match tcx.eval_static_initializer(d) {
                        Ok(a) => cx.decode(a.inner(), Size::ZERO, ty, 0),
                        Err(_) => "{\"opaque\":\"err\"}".into(),
                    }
                } else {
                    match tcx.const_eval_poly(d) {
                        Ok(v) => cx.constval(v, ty),
                        Err(_) => "{\"opaque\":\"err\"}".into(),
                    }
                };
                consts.push(format!(
                    "{{\"path\":{},\"ty\":{},\"kind\":{},\"line\":{},\"file\":{},\"val\":{}{}}}",
                    js(&name),
                    js(&cx.tys(ty)),
                    js(&format!("{kind:?}")),
                    cx.line(tcx.def_span(d)),
                    js(&cx.file(tcx.def_span(d))),
                    val,
                    trait_impl
                ));
                let body = tcx.mir_for_ctfe(d);
                bodies.push(cx.body(body, &name, "const", ""));
                for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                    bodies.push(cx.body(p, &format!("{name}::promoted#{}", i.as_usize()), "promoted", ""));
                }
            }
            _ => {}
        }
    }
    // ADTs and impls
    let mut adts = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        let cx = Cx { tcx, env: TypingEnv::fully_monomorphized() };
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum => {
                let def = tcx.adt_def(d);
                let vs: Vec<String> = def
                    .variants()
                    .iter()
                    .map(|v| {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                format!(
                                    "[{},{},{}]",
                                    js(f.name.as_str()),
                                    js(&cx.tys(t)),
                                    js(&format!("{:?}", f.vis))
                                )
                            })
                            .collect();
                        format!("[{},{}]", js(v.name.as_str()), arr(&fs))
                    })
                    .collect();
                adts.push(format!(
                    "{{\"path\":{},\"kind\":{},\"vis\":{},\"line\":{},\"file\":{},\"variants\":{}}}",
                    js(&cx.path(d)),
                    js(if def.is_enum() { "enum" } else { "struct" }),
                    js(&format!("{:?}", tcx.visibility(d))),
                    cx.line(tcx.def_span(d)),
                    js(&cx.file(tcx.def_span(d))),
                    arr(&vs)
                ));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tr = if of_trait {
                    js(&with_no_trimmed_paths!(format!(
                        "{}",
                        tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip()
                    )))
                } else {
                    "null".into()
                };
                let items: Vec<String> =
                    tcx.associated_item_def_ids(d).iter().map(|i| js(&cx.path(*i))).collect();
                let types: Vec<String> = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .filter(|i| matches!(tcx.def_kind(**i), DefKind::AssocTy))
                    .map(|i| {
                        let t = tcx.type_of(*i).instantiate_identity().skip_norm_wip();
                        format!("[{},{}]", js(&cx.path(*i)), js(&cx.tys(t)))
                    })
                    .collect();
                impls.push(format!(
                    "{{\"self_ty\":{},\"trait\":{},\"items\":{},\"types\":{},\"line\":{},\"file\":{}}}",
                    js(&cx.tys(st)),
                    tr,
                    arr(&items),
                    arr(&types),
                    cx.line(tcx.def_span(d)),
                    js(&cx.file(tcx.def_span(d)))
                ));
            }
            _ => {}
        }
    }
    let out = format!(
        "{{\"crate\":{},\"bodies\":[\n{}\n],\"consts\":[\n{}\n],\"adts\":[\n{}\n],\"impls\":[\n{}\n]}}\n",
        js(&krate),
        bodies.join(",\n"),
        consts.join(",\n"),
        adts.join(",\n"),
        impls.join(",\n")
    );
    let tag = std::env::var("MIRFACTS_TAG").unwrap_or_default();
    let path = format!("{dir}/{krate}{tag}.json");
    std::fs::write(format!("{path}.tmp"), out).expect("write facts");
    std::fs::rename(format!("{path}.tmp"), path).expect("rename facts");
}

impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx);
        let _ = LocalDefId::to_def_id;
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb))
}

/// The lines of the unsafe blocks written in a body.
struct UnsafeBlocks<'tcx> {
    tcx: TyCtxt<'tcx>,
    lines: Vec<usize>,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeBlocks<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let lo = self.tcx.sess.source_map().lookup_char_pos(b.span.source_callsite().lo());
            let foreign = b.span.ctxt().outer_expn_data().macro_def_id.is_some_and(|m| !m.is_local());
            if !foreign {
                self.lines.push(lo.line);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}
