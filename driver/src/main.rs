//! Dumps the resolved MIR of the local crate as JSON (one object per body).
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, BasicBlock, Body, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind, UnwindAction,
};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    seen: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        if d.is_local() {
            format!("crate{}", p)
        } else {
            format!("{}{}", krate, p)
        }
    }

    fn adt(&mut self, a: ty::AdtDef<'tcx>) -> String {
        let k = self.key(a.did());
        if self.seen.insert(a.did()) {
            let mut vs = Vec::new();
            for (i, v) in a.variants().iter_enumerated() {
                let discr = if a.is_enum() { a.discriminant_for_variant(self.tcx, i).val.to_string() } else { "0".into() };
                let fs = arr(v.fields.iter().map(|f| q(f.name.as_str())));
                vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", q(v.name.as_str()), discr, fs));
            }
            let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
            let mut ftys = Vec::new();
            let mut params = Vec::new();
            if a.did().is_local() {
                for v in a.variants().iter() {
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(self.ty(t));
                    }
                    ftys.push(arr(fs));
                }
                for g in self.tcx.generics_of(a.did()).own_params.iter() {
                    params.push(q(g.name.as_str()));
                }
            }
            let s = format!("{{\"kind\":{},\"local\":{},\"variants\":{},\"ftys\":{},\"params\":{}}}", q(kind), a.did().is_local(), arr(vs), arr(ftys), arr(params));
            self.adts.insert(k.clone(), s);
        }
        k
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\"}".into(),
            ty::Int(_) | ty::Uint(_) => format!("{{\"k\":\"int\",\"n\":{}}}", q(&t.to_string())),
            ty::Float(_) => format!("{{\"k\":\"float\",\"n\":{}}}", q(&t.to_string())),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", q(p.name.as_str())),
            ty::Ref(_, t2, m) => {
                let s = self.ty(*t2);
                format!("{{\"k\":\"ref\",\"mut\":{},\"t\":{}}}", m.is_mut(), s)
            }
            ty::RawPtr(t2, m) => {
                let s = self.ty(*t2);
                format!("{{\"k\":\"ptr\",\"mut\":{},\"t\":{}}}", m.is_mut(), s)
            }
            ty::Slice(t2) => {
                let s = self.ty(*t2);
                format!("{{\"k\":\"slice\",\"t\":{}}}", s)
            }
            ty::Array(t2, n) => {
                let s = self.ty(*t2);
                let len = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"t\":{},\"len\":{}}}", s, len)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x)).collect();
                format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(v))
            }
            ty::Adt(a, args) => {
                let n = self.adt(*a);
                let v: Vec<String> = args.types().map(|x| self.ty(x)).collect();
                format!("{{\"k\":\"adt\",\"n\":{},\"a\":{}}}", q(&n), arr(v))
            }
            ty::FnDef(d, args) => {
                let k = self.key(*d);
                let v: Vec<String> = args.skip_binder().types().map(|x| self.ty(x)).collect();
                format!("{{\"k\":\"fndef\",\"n\":{},\"a\":{}}}", q(&k), arr(v))
            }
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"n\":{}}}", q(&self.key(*d))),
            ty::FnPtr(..) => "{\"k\":\"fnptr\"}".into(),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{}}}", q(&t.to_string())),
            ty::Alias(..) => format!("{{\"k\":\"alias\",\"n\":{}}}", q(&t.to_string())),
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", q(&t.to_string())),
        }
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let k = self.key(d);
        let targs: Vec<String> = args.types().map(|x| self.ty(x)).collect();
        let mut extra = String::new();
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(extra, ",\"trait\":{}", q(&self.key(tr)));
        }
        // resolve trait methods to their implementation where the types allow it
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, d, args)));
        if let Ok(Ok(Some(inst))) = res {
            let rd = inst.def_id();
            let rk = self.key(rd);
            let ra: Vec<String> = inst.args.types().map(|x| self.ty(x)).collect();
            let has_mir = rd.is_local() && tcx.is_mir_available(rd);
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            let _ = write!(extra, ",\"res\":{{\"path\":{},\"args\":{},\"mir\":{},\"kind\":{}}}", q(&rk), arr(ra), has_mir && kind == "item", q(kind));
        }
        // `a.into()` / `T::try_into`: resolve the From impl behind the blanket impl
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let conv = match tcx.item_name(tr).as_str() {
                "Into" if args.len() == 2 => Some((args[1], args[0])),
                // the error conversion of `?`
                "FromResidual" if args.len() == 2 => {
                    let err = |x: ty::GenericArg<'tcx>| match x.as_type()?.kind() {
                        ty::Adt(a, s) if tcx.is_diagnostic_item(rustc_span::sym::Result, a.did()) => Some(s[1]),
                        _ => None,
                    };
                    match (err(args[0]), err(args[1])) {
                        (Some(f), Some(e)) => Some((f, e)),
                        _ => None,
                    }
                }
                _ => None,
            };
            if let Some((to_ty, from_ty)) = conv {
                if let Some(from_tr) = tcx.get_diagnostic_item(rustc_span::sym::From) {
                    if let Some(m) = tcx.associated_items(from_tr).in_definition_order().next() {
                        let a2 = tcx.mk_args(&[to_ty, from_ty]);
                        if let Ok(Ok(Some(inst))) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            Instance::try_resolve(tcx, env, m.def_id, a2)
                        })) {
                            let rd = inst.def_id();
                            let rk = self.key(rd);
                            let _ = write!(extra, ",\"from\":{{\"path\":{},\"mir\":{}}}", q(&rk), rd.is_local() && tcx.is_mir_available(rd));
                        }
                    }
                }
            }
        }
        let tf: Vec<String> = if tcx.def_kind(d).is_fn_like() {
            tcx.codegen_fn_attrs(d).target_features.iter().map(|f| q(f.name.as_str())).collect()
        } else {
            vec![]
        };
        let unsafe_ = tcx.def_kind(d).is_fn_like() && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        format!(
            "{{\"path\":{},\"name\":{},\"args\":{},\"local\":{},\"unsafe\":{},\"tf\":{}{}}}",
            q(&k), q(&name), arr(targs), d.is_local(), unsafe_, arr(tf), extra
        )
    }

    // ---- constants -------------------------------------------------------
    fn mem_val(&mut self, alloc: rustc_middle::mir::interpret::ConstAllocation<'tcx>, off: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<String> {
        if depth > 12 {
            return None;
        }
        let tcx = self.tcx;
        let lay = tcx.layout_of(env.as_query_input(t)).ok()?;
        let size = lay.size;
        let o = rustc_abi::Size::from_bytes(off);
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let s = alloc.inner().read_scalar(&tcx, AllocRange { start: o, size }, false).ok()?;
                self.scalar_val(s, t)
            }
            ty::Array(t2, n) => {
                let n = n.try_to_target_usize(tcx)?;
                if n > 70000 {
                    return None;
                }
                let es = tcx.layout_of(env.as_query_input(*t2)).ok()?.size.bytes();
                let mut v = Vec::new();
                for i in 0..n {
                    v.push(self.mem_val(alloc, off + i * es, *t2, env, depth + 1)?);
                }
                Some(format!("{{\"arr\":{}}}", arr(v)))
            }
            ty::Tuple(ts) => {
                let mut v = Vec::new();
                for (i, t2) in ts.iter().enumerate() {
                    let fo = lay.fields.offset(i).bytes();
                    v.push(self.mem_val(alloc, off + fo, t2, env, depth + 1)?);
                }
                Some(format!("{{\"tup\":{}}}", arr(v)))
            }
            ty::Adt(a, args) if a.is_struct() => {
                let mut v = Vec::new();
                for (i, f) in a.non_enum_variant().fields.iter().enumerate() {
                    let fo = lay.fields.offset(i).bytes();
                    let ft = tcx.normalize_erasing_regions(env, f.ty(tcx, args));
                    v.push(self.mem_val(alloc, off + fo, ft, env, depth + 1)?);
                }
                let n = self.adt(*a);
                Some(format!("{{\"adt\":{},\"variant\":0,\"fields\":{}}}", q(&n), arr(v)))
            }
            ty::Adt(a, args) if a.is_enum() => {
                // decode via the const evaluator only for field-less variants
                let _ = args;
                let tagsize = match &lay.variants {
                    rustc_abi::Variants::Single { index } => {
                        let n = self.adt(*a);
                        return Some(format!("{{\"adt\":{},\"variant\":{},\"fields\":[]}}", q(&n), index.as_u32()));
                    }
                    rustc_abi::Variants::Multiple { tag, tag_field, tag_encoding: rustc_abi::TagEncoding::Direct, .. } => {
                        (tag.size(&tcx), lay.fields.offset(tag_field.as_usize()).bytes())
                    }
                    _ => return None,
                };
                let s = alloc.inner().read_scalar(&tcx, AllocRange { start: rustc_abi::Size::from_bytes(off + tagsize.1), size: tagsize.0 }, false).ok()?;
                let bits = s.to_scalar_int().discard_err()?.to_bits(tagsize.0);
                for (i, d) in a.discriminants(tcx) {
                    if d.val == bits && a.variant(i).fields.is_empty() {
                        let n = self.adt(*a);
                        return Some(format!("{{\"adt\":{},\"variant\":{},\"fields\":[]}}", q(&n), i.as_u32()));
                    }
                }
                None
            }
            ty::Ref(_, t2, _) => {
                let ptr = alloc.inner().read_scalar(&tcx, AllocRange { start: o, size: tcx.data_layout.pointer_size() }, true).ok()?;
                let meta = match t2.kind() {
                    ty::Str | ty::Slice(_) => {
                        let ps = tcx.data_layout.pointer_size();
                        let m = alloc.inner().read_scalar(&tcx, AllocRange { start: o + ps, size: ps }, false).ok()?;
                        Some(m.to_target_usize(&tcx).discard_err()?)
                    }
                    _ => None,
                };
                self.ptr_val(ptr, meta, *t2, env, depth + 1)
            }
            _ => None,
        }
    }

    fn ptr_val(&mut self, ptr: Scalar, meta: Option<u64>, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        let p = ptr.to_pointer(&tcx);
        let prov = p.provenance?;
        let off = p.into_raw_parts().1.bytes();
        match tcx.global_alloc(prov.alloc_id()) {
            GlobalAlloc::Memory(a) => self.pointee(a, off, meta, t, env, depth),
            GlobalAlloc::Static(d) => Some(format!("{{\"static\":{}}}", q(&self.key(d)))),
            _ => None,
        }
    }

    fn pointee(&mut self, a: rustc_middle::mir::interpret::ConstAllocation<'tcx>, off: u64, meta: Option<u64>, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Str => {
                let n = meta? as usize;
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..off as usize + n);
                Some(format!("{{\"ref\":{{\"str\":{}}}}}", q(&String::from_utf8_lossy(b))))
            }
            ty::Slice(t2) => {
                let n = meta?;
                let es = tcx.layout_of(env.as_query_input(*t2)).ok()?.size.bytes();
                let mut v = Vec::new();
                for i in 0..n {
                    v.push(self.mem_val(a, off + i * es, *t2, env, depth + 1)?);
                }
                Some(format!("{{\"ref\":{{\"arr\":{}}}}}", arr(v)))
            }
            _ => {
                let s = self.mem_val(a, off, t, env, depth + 1)?;
                Some(format!("{{\"ref\":{}}}", s))
            }
        }
    }

    fn scalar_val(&mut self, s: Scalar, t: Ty<'tcx>) -> Option<String> {
        match s {
            Scalar::Int(i) => {
                let size = i.size();
                Some(match t.kind() {
                    ty::Bool => format!("{{\"bool\":{}}}", i.to_bits(size) != 0),
                    ty::Char => format!("{{\"char\":{}}}", i.to_bits(size)),
                    ty::Int(_) => format!("{{\"int\":\"{}\"}}", i.to_int(size)),
                    ty::Uint(_) => format!("{{\"int\":\"{}\"}}", i.to_bits(size)),
                    ty::Float(ty::FloatTy::F32) => {
                        let f = f32::from_bits(i.to_bits(size) as u32);
                        format!("{{\"f32\":\"{:e}\"}}", f)
                    }
                    ty::Float(ty::FloatTy::F64) => {
                        let f = f64::from_bits(i.to_bits(size) as u64);
                        format!("{{\"f64\":\"{:e}\"}}", f)
                    }
                    ty::Adt(a, _) if a.is_enum() => {
                        let n = self.adt(*a);
                        let bits = i.to_bits(size);
                        let mut r = None;
                        for (vi, d) in a.discriminants(self.tcx) {
                            let mask = if size.bits() >= 128 { u128::MAX } else { (1u128 << size.bits()) - 1 };
                            if d.val & mask == bits && a.variant(vi).fields.is_empty() {
                                r = Some(format!("{{\"adt\":{},\"variant\":{},\"fields\":[]}}", q(&n), vi.as_u32()));
                            }
                        }
                        r?
                    }
                    _ => return None,
                })
            }
            Scalar::Ptr(..) => None,
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tj = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let cj = self.callee(*d, args.skip_binder(), env);
            return format!("{{\"ty\":{},\"fn\":{}}}", tj, cj);
        }
        let mut uneval = String::new();
        if let Const::Unevaluated(u, _) = c {
            let p = u.promoted.map(|p| p.as_u32().to_string()).unwrap_or("null".into());
            let _ = write!(uneval, ",\"uneval\":{{\"path\":{},\"promoted\":{}}}", q(&self.key(u.def)), p);
        }
        let v = c.eval(tcx, env, rustc_span::DUMMY_SP).ok().and_then(|v| match v {
            ConstValue::ZeroSized => Some("{\"zst\":true}".to_string()),
            ConstValue::Scalar(s @ Scalar::Int(_)) => match t.kind() {
                ty::Adt(a, _) if a.is_struct() => None,
                _ => self.scalar_val(s, t),
            },
            ConstValue::Scalar(s @ Scalar::Ptr(..)) => match t.kind() {
                ty::Ref(_, t2, _) => self.ptr_val(s, None, *t2, env, 0),
                ty::RawPtr(t2, _) => self.ptr_val(s, None, *t2, env, 0),
                _ => None,
            },
            ConstValue::Slice { alloc_id, meta } => match (t.kind(), tcx.global_alloc(alloc_id)) {
                (ty::Ref(_, t2, _), GlobalAlloc::Memory(a)) => self.pointee(a, 0, Some(meta), *t2, env, 0),
                _ => None,
            },
            ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(a) => self.mem_val(a, offset.bytes(), t, env, 0),
                _ => None,
            },
        });
        format!("{{\"ty\":{},\"val\":{}{}}}", tj, v.unwrap_or("null".into()), uneval)
    }

    // ---- bodies ----------------------------------------------------------
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let tj = self.ty(t);
                    format!("{{\"f\":{},\"t\":{}}}", f.as_u32(), tj)
                }
                ProjectionElem::Index(l) => format!("{{\"i\":{}}}", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("{{\"ci\":{},\"end\":{}}}", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("{{\"sub\":[{},{}],\"end\":{}}}", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("{{\"d\":{}}}", v.as_u32()),
                _ => "{\"x\":1}".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), arr(v))
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let mv = matches!(o, Operand::Move(_));
                format!("{{\"p\":{},\"mv\":{}}}", self.place(p), mv)
            }
            Operand::Constant(c) => format!("{{\"c\":{}}}", self.constant(&c.const_, env)),
            _ => "{\"rt\":1}".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let len = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o, env), len)
            }
            Rvalue::Ref(_, bk, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(bk, mir::BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("{{\"r\":\"rawptr\",\"mut\":{},\"p\":{}}}", matches!(k, mir::RawPtrKind::Mut), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ts = self.ty(*t);
                format!("{{\"r\":\"cast\",\"k\":{},\"o\":{},\"t\":{}}}", q(&format!("{:?}", k)), self.operand(o, env), ts)
            }
            Rvalue::BinaryOp(op, b) => {
                format!("{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", q(&format!("{:?}", op)), self.operand(&b.0, env), self.operand(&b.1, env))
            }
            Rvalue::UnaryOp(op, o) => format!("{{\"r\":\"un\",\"op\":{},\"o\":{}}}", q(&format!("{:?}", op)), self.operand(o, env)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"p\":{},\"mv\":false}}}}", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"reborrow\",\"mut\":{},\"p\":{}}}", m.is_mut(), self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|o| self.operand(o, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => {
                        let ts = self.ty(*t);
                        format!("{{\"k\":\"array\",\"t\":{}}}", ts)
                    }
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".into(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let a = self.tcx.adt_def(*d);
                        let n = self.adt(a);
                        format!("{{\"k\":\"adt\",\"n\":{},\"v\":{},\"enum\":{}}}", q(&n), v.as_u32(), a.is_enum())
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"n\":{}}}", q(&self.key(*d))),
                    _ => "{\"k\":\"other\"}".into(),
                };
                format!("{{\"r\":\"agg\",\"kind\":{},\"f\":{}}}", kj, arr(f))
            }
            other => format!("{{\"r\":\"other\",\"s\":{}}}", q(&format!("{:?}", other))),
        }
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn bb(b: BasicBlock) -> String {
        b.as_u32().to_string()
    }
    fn body(&mut self, key: &str, kind: &str, d: DefId, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, d);
        let mut blocks = Vec::new();
        for (_i, bd) in b.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &bd.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1, env);
                        st.push(format!("{{\"s\":\"=\",\"p\":{},\"rv\":{},\"l\":{}}}", p, r, q(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("{{\"s\":\"setd\",\"p\":{},\"v\":{}}}", self.place(place), variant_index.as_u32()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("{{\"s\":\"dead\",\"v\":{}}}", l.as_u32())),
                    StatementKind::Intrinsic(i) => st.push(format!("{{\"s\":\"intr\",\"d\":{}}}", q(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bd.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", Self::bb(*target)),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, env);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dtj = self.ty(dt);
                    let v = arr(targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, Self::bb(t))));
                    format!("{{\"t\":\"switch\",\"d\":{},\"ty\":{},\"v\":{},\"else\":{}}}", o, dtj, v, Self::bb(targets.otherwise()))
                }
                TerminatorKind::Return => "{\"t\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"t\":\"resume\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    let ptj = self.ty(pt);
                    format!("{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{}}}", self.place(place), ptj, Self::bb(*target))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let at: Vec<String> = args.iter().map(|x| {
                        let t = x.node.ty(&b.local_decls, tcx);
                        self.ty(t)
                    }).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dtj = self.ty(dt);
                    let to = target.map(Self::bb).unwrap_or("null".into());
                    let un = match unwind {
                        UnwindAction::Cleanup(c) => Self::bb(*c),
                        _ => "null".into(),
                    };
                    format!("{{\"t\":\"call\",\"f\":{},\"a\":{},\"at\":{},\"d\":{},\"dt\":{},\"to\":{},\"un\":{}}}", f, arr(a), arr(at), d, dtj, to, un)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(cond, env);
                    let m = format!("{:?}", msg);
                    format!("{{\"t\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"to\":{}}}", o, expected, q(&m), Self::bb(*target))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", Self::bb(*real_target)),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", Self::bb(*real_target)),
                other => format!("{{\"t\":\"other\",\"s\":{}}}", q(&format!("{:?}", other))),
            };
            blocks.push(format!("{{\"c\":{},\"st\":{},\"term\":{},\"l\":{}}}", bd.is_cleanup, arr(st), tj, q(&sp)));
        }
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", q(v.name.as_str()), self.place(p)));
            }
        }
        let is_fn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn);
        let vis = if is_fn {
            d.as_local().map(|l| tcx.effective_visibilities(()).is_exported(l)).unwrap_or(false)
        } else {
            false
        };
        let mut extra = String::new();
        if is_fn {
            let uns = tcx.fn_sig(d).skip_binder().safety().is_unsafe();
            let tf = arr(tcx.codegen_fn_attrs(d).target_features.iter().map(|f| q(f.name.as_str())));
            let _ = write!(extra, ",\"unsafe\":{},\"tf\":{}", uns, tf);
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = self.ty(tcx.type_of(im).skip_binder());
                let _ = write!(extra, ",\"self\":{}", st);
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.skip_binder();
                    let a: Vec<String> = tr.args.types().map(|x| self.ty(x)).collect();
                    let _ = write!(extra, ",\"trait\":{},\"traitargs\":{}", q(&self.key(tr.def_id)), arr(a));
                }
            }
            let _ = write!(extra, ",\"name\":{}", q(tcx.item_name(d).as_str()));
        }
        let upvars = if kind == "closure" {
            let names = tcx.closure_captures(d.expect_local());
            arr(names.iter().map(|c| q(&c.to_string(tcx))))
        } else {
            "[]".into()
        };
        // names of the type parameters, parents first
        let mut gens: Vec<String> = Vec::new();
        {
            let mut g = tcx.generics_of(d);
            let mut st = vec![g];
            while let Some(p) = g.parent {
                g = tcx.generics_of(p);
                st.push(g);
            }
            for g in st.iter().rev() {
                for p in g.own_params.iter() {
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                        gens.push(q(p.name.as_str()));
                    }
                }
            }
        }
        let _ = write!(extra, ",\"generics\":{}", arr(gens));
        format!(
            "{{\"key\":{},\"kind\":{},\"pub\":{},\"argc\":{},\"locals\":{},\"names\":{},\"upvars\":{},\"span\":{}{},\"blocks\":{}}}",
            q(key), q(kind), vis, b.arg_count, arr(locals), arr(names), upvars, q(&self.span(b.span)), extra, arr(blocks)
        )
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, adts: BTreeMap::new(), seen: HashSet::new() };
        let mut bodies = Vec::new();
        let mut statics = Vec::new();
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        for l in owners {
            let d = l.to_def_id();
            let dk = tcx.def_kind(d);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    let b = tcx.optimized_mir(d);
                    let key = cx.key(d);
                    let kind = if dk == DefKind::Closure { "closure" } else { "fn" };
                    bodies.push(cx.body(&key, kind, d, b));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        let k = format!("{}#promoted{}", key, i.as_u32());
                        bodies.push(cx.body(&k, "promoted", d, p));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let key = cx.key(d);
                    if tcx.generics_of(d).is_empty() || !tcx.generics_of(d).requires_monomorphization(tcx) {
                        let env = TypingEnv::post_analysis(tcx, d);
                        let args = ty::GenericArgs::identity_for_item(tcx, d);
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let c = Const::Unevaluated(mir::UnevaluatedConst::new(d, args), t);
                        let v = cx.constant(&c, env);
                        statics.push(format!("{{\"key\":{},\"kind\":\"const\",\"v\":{},\"span\":{}}}", q(&key), v, q(&cx.span(tcx.def_span(d)))));
                    }
                }
                DefKind::Static { mutability, .. } => {
                    let key = cx.key(d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, d);
                    let freeze = t.is_freeze(tcx, env);
                    let tj = cx.ty(t);
                    let tl = tcx.is_thread_local_static(d);
                    statics.push(format!("{{\"key\":{},\"kind\":\"static\",\"mut\":{},\"freeze\":{},\"tl\":{},\"ty\":{},\"span\":{}}}",
                        q(&key), mutability.is_mut(), freeze, tl, tj, q(&cx.span(tcx.def_span(d)))));
                }
                _ => {}
            }
        }
        let adts = cx.adts.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(",");
        let s = format!("{{\"bodies\":[\n{}\n],\n\"globals\":{},\n\"adts\":{{{}}}}}\n", bodies.join(",\n"), arr(statics), adts);
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "imgproc_rs");
    match (is_target, std::env::var("MIRDUMP_OUT")) {
        (true, Ok(out)) => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Coverflow-checks=off".into());
            args.push("--cap-lints=allow".into());
            let mut cb = Cb { out };
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
        }
        _ => {
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain))
        }
    }
}
