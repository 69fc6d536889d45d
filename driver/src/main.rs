//! Dumps the resolved, type-checked MIR of one crate as JSON (see DESIGN.md).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{CtorOf, DefKind};
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<String, String>,
    functions: Vec<String>,
    seen: HashSet<String>,
    queue: VecDeque<(String, Instance<'tcx>, ty::TypingEnv<'tcx>, Option<Promoted>, bool)>,
    follow: Vec<String>,
}

fn place(l: &rustc_span::Loc) -> String {
    let f = match &l.file.name {
        rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
        _ => String::new(),
    };
    format!("{}:{}", f, l.line)
}
fn kpath(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(tcx.def_path_str(d)))
}
fn vpath(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(format!("{t}")))
}

impl<'tcx> Dump<'tcx> {
    fn key(&self, i: &Instance<'tcx>) -> String {
        let k = match i.def {
            InstanceKind::Item(_) => "".to_string(),
            ref o => format!("{:?}|", std::mem::discriminant(o)),
        };
        let a = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(
            i.args.iter().filter(|a| a.as_region().is_none()).map(|a| format!("{a}")).collect::<Vec<_>>().join(",")));
        format!("{}{}<{}>", k, vpath(self.tcx, i.def_id()), a)
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        place(&self.tcx.sess.source_map().lookup_char_pos(s.lo()))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.type_ids.get(&t) { return i; }
        let i = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, i);
        let tcx = self.tcx;
        let s = esc(&tystr(t));
        let j = match *t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",\"s\":{s}}}"),
            ty::Char => format!("{{\"k\":\"char\",\"s\":{s}}}"),
            ty::Int(_) | ty::Uint(_) => format!("{{\"k\":\"int\",\"s\":{s}}}"),
            ty::Str => format!("{{\"k\":\"str\",\"s\":{s}}}"),
            ty::Never => format!("{{\"k\":\"never\",\"s\":{s}}}"),
            ty::Param(_) => format!("{{\"k\":\"param\",\"s\":{s}}}"),
            ty::Ref(_, u, m) => { let e = self.ty(u); format!("{{\"k\":\"ref\",\"mut\":{},\"e\":{e},\"s\":{s}}}", m.is_mut()) }
            ty::RawPtr(u, _) => { let e = self.ty(u); format!("{{\"k\":\"ptr\",\"e\":{e},\"s\":{s}}}") }
            ty::Slice(u) => { let e = self.ty(u); format!("{{\"k\":\"slice\",\"e\":{e},\"s\":{s}}}") }
            ty::Array(u, n) => {
                let e = self.ty(u);
                let n = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"e\":{e},\"n\":{n},\"s\":{s}}}")
            }
            ty::Tuple(l) => { let e = list(l.iter().map(|u| self.ty(u).to_string())); format!("{{\"k\":\"tuple\",\"es\":{e},\"s\":{s}}}") }
            ty::Adt(d, args) => {
                let a = list(args.types().map(|u| self.ty(u).to_string()));
                let mut vs = vec![];
                let discr: HashMap<_, _> = if d.is_enum() { d.discriminants(tcx).map(|(v, x)| (v, x.val)).collect() } else { HashMap::new() };
                for (vi, v) in d.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = tcx.try_normalize_erasing_regions(ty::TypingEnv::post_analysis(tcx, d.did()), ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                        let shallow = d.did().is_local() || matches!(tcx.crate_name(d.did().krate).as_str(), "core" | "truetype" | "typeface");
                        let e = if shallow { self.ty(ft).to_string() } else { "null".into() };
                        let vis = if f.vis.is_public() { "true" } else { "false" };
                        fs.push(format!("[{},{},{}]", esc(f.name.as_str()), e, vis));
                    }
                    vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":{}}}", esc(v.name.as_str()), discr.get(&vi).copied().unwrap_or(0), list(fs)));
                }
                let k = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
                let bits = 0;
                format!("{{\"k\":\"adt\",\"path\":{},\"v\":{},\"a\":{a},\"kind\":\"{k}\",\"bits\":{bits},\"local\":{},\"s\":{s},\"vs\":{}}}",
                    esc(&kpath(tcx, d.did())), esc(&vpath(tcx, d.did())), d.did().is_local(), list(vs))
            }
            ty::Closure(d, args) => {
                let up = args.as_closure().upvar_tys().iter().map(|u| self.ty(u).to_string()).collect::<Vec<_>>();
                format!("{{\"k\":\"closure\",\"v\":{},\"es\":{},\"s\":{s}}}", esc(&vpath(tcx, d)), list(up))
            }
            ty::FnDef(d, args) => {
                let _ = args;
                format!("{{\"k\":\"fndef\",\"v\":{},\"s\":{s}}}", esc(&vpath(tcx, d)))
            }
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        };
        self.types[i] = j;
        i
    }
    fn place(&mut self, p: Place<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_usize());
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 { o.push(','); }
            match e {
                ProjectionElem::Deref => o.push_str("[\"d\"]"),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), t); }
                ProjectionElem::Index(l) => { let _ = write!(o, "[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(o, "[\"ci\",{},{}]", offset, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(_, v) => { let _ = write!(o, "[\"v\",{}]", v.as_usize()); }
                _ => o.push_str("[\"o\"]"),
            }
        }
        o.push_str("]]");
        o
    }
    fn int(v: u128, size: u64, signed: bool) -> String {
        if signed && size > 0 && size < 16 {
            let sh = 128 - size * 8;
            format!("\"{}\"", ((v << sh) as i128) >> sh)
        } else { format!("\"{v}\"") }
    }
    fn decode(&mut self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>, depth: usize) -> Option<String> {
        if depth > 12 { return None; }
        let tcx = self.tcx;
        let layout = tcx.layout_of(env.as_query_input(t)).ok()?;
        let mem = match tcx.global_alloc(alloc) {
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::Static(d) => return Some(format!("[\"static\",{}]", esc(&vpath(tcx, d)))),
            _ => return None,
        };
        let a = mem.inner();
        let scal = |off: u64, size: u64, prov: bool| a.read_scalar(&tcx, AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(size) }, prov).ok();
        match *t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                let sz = layout.size.bytes();
                let v = scal(off, sz, false)?.to_bits(layout.size).discard_err()?;
                let ti = self.ty(t);
                if t.is_bool() { return Some(format!("[\"bool\",{}]", v != 0)); }
                Some(format!("[\"int\",{},{ti}]", Self::int(v, sz, t.is_signed())))
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let es = tcx.layout_of(env.as_query_input(e)).ok()?.size.bytes();
                if n > 4096 { return None; }
                let mut v = vec![];
                for i in 0..n { v.push(self.decode(alloc, off + i * es, e, env, depth + 1)?); }
                Some(format!("[\"array\",{}]", list(v)))
            }
            ty::Tuple(l) => {
                let mut v = vec![];
                for (i, e) in l.iter().enumerate() { v.push(self.decode(alloc, off + layout.fields.offset(i).bytes(), e, env, depth + 1)?); }
                Some(format!("[\"tuple\",{}]", list(v)))
            }
            ty::Adt(d, args) if d.is_struct() => {
                let mut v = vec![];
                for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    v.push(self.decode(alloc, off + layout.fields.offset(i).bytes(), ft, env, depth + 1)?);
                }
                let ti = self.ty(t);
                Some(format!("[\"adt\",{ti},0,{}]", list(v)))
            }
            ty::Ref(_, e, _) => {
                let p = scal(off, 8, true)?;
                let ptr = match p { Scalar::Ptr(p, _) => p, _ => return None };
                let (prov, o) = ptr.into_raw_parts();
                let id = prov.alloc_id();
                match *e.kind() {
                    ty::Str | ty::Slice(_) => {
                        let len = scal(off + 8, 8, false)?.to_bits(rustc_abi::Size::from_bytes(8)).discard_err()? as u64;
                        self.slice(id, o.bytes(), len, e, env, depth)
                    }
                    _ => Some(format!("[\"ref\",{}]", self.decode(id, o.bytes(), e, env, depth + 1)?)),
                }
            }
            _ if layout.is_zst() => { let ti = self.ty(t); Some(format!("[\"zst\",{ti}]")) }
            _ => None,
        }
    }
    fn slice(&mut self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64, e: Ty<'tcx>, env: ty::TypingEnv<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        if len > 8192 { return None; }
        match *e.kind() {
            ty::Str => {
                let mem = match tcx.global_alloc(id) { GlobalAlloc::Memory(m) => m, _ => return None };
                let b = mem.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                Some(format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b))))
            }
            ty::Slice(u) => {
                let es = tcx.layout_of(env.as_query_input(u)).ok()?.size.bytes();
                let mut v = vec![];
                for i in 0..len { v.push(self.decode(id, off + i * es, u, env, depth + 1)?); }
                Some(format!("[\"ref\",[\"array\",{}]]", list(v)))
            }
            _ => None,
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            return self.callee(d, args.skip_binder(), env);
        }
        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            let r = match v {
                ConstValue::ZeroSized => Some(match *t.kind() {
                    ty::Closure(d, a) => { let k = self.closure(d, a, env); format!("[\"closure\",{},{ti}]", esc(&k)) }
                    _ => format!("[\"zst\",{ti}]") }),
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let sz = i.size().bytes();
                    let v = i.to_bits(i.size());
                    Some(match *t.kind() {
                        ty::Bool => format!("[\"bool\",{}]", v != 0),
                        ty::Int(_) | ty::Uint(_) | ty::Char => format!("[\"int\",{},{ti}]", Self::int(v, sz, t.is_signed())),
                        ty::Adt(d, args) if d.is_struct() && d.non_enum_variant().fields.len() == 1 => {
                            let f = d.non_enum_variant().fields.iter().next().unwrap().ty(tcx, args).skip_norm_wip();
                            if f.is_integral() {
                                let fi = self.ty(f);
                                format!("[\"adt\",{ti},0,[[\"int\",{},{fi}]]]", Self::int(v, sz, f.is_signed()))
                            } else { format!("[\"raw\",\"{v}\",{ti}]") }
                        }
                        ty::Adt(d, _) if d.is_enum() => {
                            match tcx.try_destructure_mir_constant_for_user_output(ConstValue::Scalar(Scalar::Int(i)), t) {
                                Some(x) if x.fields.is_empty() => format!("[\"adt\",{ti},{},[]]", x.variant.map(|v| v.as_usize()).unwrap_or(0)),
                                _ => format!("[\"raw\",\"{v}\",{ti}]"),
                            }
                        }
                        _ => format!("[\"raw\",\"{v}\",{ti}]"),
                    })
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, o) = p.into_raw_parts();
                    match *t.kind() {
                        ty::Ref(_, e, _) | ty::RawPtr(e, _) => match tcx.global_alloc(prov.alloc_id()) {
                            GlobalAlloc::Static(d) => Some(format!("[\"static\",{}]", esc(&vpath(tcx, d)))),
                            _ => self.decode(prov.alloc_id(), o.bytes(), e, env, 0).map(|x| format!("[\"ref\",{x}]")),
                        },
                        _ => None,
                    }
                }
                ConstValue::Slice { alloc_id, meta } => match *t.kind() {
                    ty::Ref(_, e, _) => self.slice(alloc_id, 0, meta, e, env, 0),
                    _ => None,
                },
                ConstValue::Indirect { alloc_id, offset } => self.decode(alloc_id, offset.bytes(), t, env, 0),
            };
            if let Some(r) = r { return r; }
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let i = Instance::new_raw(u.def, u.args);
                let k = format!("{}#promoted{}", self.key(&i), p.as_usize());
                self.enqueue(k.clone(), i, env, Some(p), false);
                return format!("[\"promoted\",{},{ti}]", esc(&k));
            }
            let _ = inst;
            return format!("[\"named\",{},{ti}]", esc(&vpath(tcx, u.def)));
        }
        format!("[\"unk\",{ti},{}]", esc(&format!("{:?}", c.const_)))
    }
    fn enqueue(&mut self, k: String, i: Instance<'tcx>, env: ty::TypingEnv<'tcx>, p: Option<Promoted>, root: bool) {
        if self.seen.insert(k.clone()) { self.queue.push_back((k, i, env, p, root)); }
    }
    fn followed(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let v = vpath(self.tcx, d);
        self.follow.iter().any(|f| v.starts_with(f.as_str())) && self.tcx.is_mir_available(d)
    }
    fn closure(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let i = Instance::new_raw(d, a);
        let k = self.key(&i);
        if self.followed(d) { self.enqueue(k.clone(), i, env, None, false); }
        k
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let ts = list(args.types().map(|t| self.ty(t).to_string()));
        let path = vpath(tcx, d);
        let shown = kpath(tcx, d);
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, vi) = match of {
                CtorOf::Struct => (parent, 0usize),
                CtorOf::Variant => { let a = tcx.parent(parent); (a, tcx.adt_def(a).variant_index_with_ctor_id(d).as_usize()) }
            };
            let at = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
            let ti = self.ty(at);
            return format!("[\"fn\",{{\"p\":{},\"s\":{},\"a\":{ts},\"ctor\":[{ti},{vi}],\"i\":null,\"trait\":null}}]", esc(&path), esc(&shown));
        }
        let tr = tcx.trait_of_assoc(d).map(|t| esc(&vpath(tcx, t))).unwrap_or("null".into());
        let mut inst = "null".to_string();
        let mut rpath = "null".to_string();
        let mut kind = "none".to_string();
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
            rpath = esc(&vpath(tcx, i.def_id()));
            match i.def {
                InstanceKind::Item(id) => {
                    kind = "item".into();
                    if tcx.is_mir_available(id) && self.followed(id) && !tcx.is_constructor(id) {
                        let k = self.key(&i);
                        inst = esc(&k);
                        self.enqueue(k, i, env, None, false);
                    }
                }
                InstanceKind::Intrinsic(_) => kind = "intrinsic".into(),
                InstanceKind::Virtual(..) => kind = "virtual".into(),
                _ => kind = format!("{:?}", i.def).split('(').take(2).collect::<Vec<_>>().join("("),
            }
        }
        let selfty = tcx.impl_of_assoc(d).map(|im| { let t = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip(); self.ty(t).to_string() }).unwrap_or("null".into());
        format!("[\"fn\",{{\"p\":{},\"s\":{},\"a\":{ts},\"i\":{inst},\"r\":{rpath},\"kind\":{},\"trait\":{tr},\"self\":{selfty},\"local\":{}}}]", esc(&path), esc(&shown), esc(&kind), d.is_local())
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>, inst: Instance<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(*p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(*p)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.constant(c, env, inst)),
            _ => "[\"unk\"]".to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env, inst)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{n}]", self.operand(o, env, inst))
            }
            Rvalue::Ref(_, k, p) => { let m = matches!(k, BorrowKind::Mut { .. }); format!("[\"ref\",{m},{}]", self.place(*p)) }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(*p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(*p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(*p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let (f, t) = (self.ty(from), self.ty(*t));
                let ks = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::Transmute => "transmute".into(),
                    CastKind::PointerCoercion(c, _) => format!("coerce:{c:?}"),
                    k => format!("{k:?}"),
                };
                let mut extra = String::new();
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ClosureFnPointer(_), _) = k {
                    if let ty::Closure(d, a) = *from.kind() { let key = self.closure(d, a, env); extra = format!(",{}", esc(&key)); }
                }
                format!("[\"cast\",{},{},{f},{t}{extra}]", esc(&ks), self.operand(o, env, inst))
            }
            Rvalue::BinaryOp(op, b) => {
                let lt = b.0.ty(&body.local_decls, tcx);
                let lt = self.ty(lt);
                format!("[\"bin\",\"{op:?}\",{},{},{lt}]", self.operand(&b.0, env, inst), self.operand(&b.1, env, inst))
            }
            Rvalue::UnaryOp(op, o) => {
                let lt = o.ty(&body.local_decls, tcx);
                let lt = self.ty(lt);
                format!("[\"un\",\"{op:?}\",{},{lt}]", self.operand(o, env, inst))
            }
            Rvalue::Discriminant(p) => { let t = p.ty(&body.local_decls, tcx).ty; let t = self.ty(t); format!("[\"discr\",{},{t}]", self.place(*p)) }
            Rvalue::Aggregate(k, ops) => {
                let os = list(ops.iter().map(|o| self.operand(o, env, inst)).collect::<Vec<_>>());
                match **k {
                    AggregateKind::Array(t) => { let t = self.ty(t); format!("[\"agg\",\"array\",{t},{os}]") }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,{os}]"),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = tcx.type_of(d).instantiate(tcx, a).skip_norm_wip();
                        let t = self.ty(t);
                        let f = f.map(|f| f.as_usize().to_string()).unwrap_or("null".into());
                        format!("[\"agg\",\"adt\",{t},{os},{},{f}]", v.as_usize())
                    }
                    AggregateKind::Closure(d, a) => {
                        let k = self.closure(d, a, env);
                        let t = self.ty(Ty::new_closure(tcx, d, a));
                        format!("[\"agg\",\"closure\",{t},{os},{}]", esc(&k))
                    }
                    _ => format!("[\"agg\",\"other\",0,{os}]"),
                }
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&vpath(tcx, *d))),
            _ => "[\"unk\"]".to_string(),
        }
    }
    fn function(&mut self, key: &str, inst: Instance<'tcx>, env: ty::TypingEnv<'tcx>, promoted: Option<Promoted>, root: bool) {
        let tcx = self.tcx;
        let raw: &Body<'tcx> = match promoted {
            Some(p) => &tcx.promoted_mir(inst.def_id())[p],
            None => tcx.instance_mir(inst.def),
        };
        let generic = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone()));
        let (body, ok) = match generic { Ok(b) => (b, true), Err(_) => (raw.clone(), false) };
        let locals = list(body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect::<Vec<_>>());
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let arg = v.argument_index.map(|a| a.to_string()).unwrap_or("null".into());
                names.push(format!("[{},{},{arg}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for b in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &b.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let r = self.rvalue(&a.1, &body, env, inst);
                        ss.push(format!("[\"=\",{},{},{}]", self.place(a.0), r, esc(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let t = self.ty(t);
                        ss.push(format!("[\"setd\",{},{},{t}]", self.place(**place), variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => match **i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        _ => ss.push("[\"copy_nonoverlapping\"]".into()),
                    },
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let d = self.operand(discr, env, inst);
                    let size = if dt.is_bool() { 1 } else { tcx.layout_of(env.as_query_input(dt)).map(|l| l.size.bytes()).unwrap_or(16) };
                    let vs = list(targets.iter().map(|(v, b)| format!("[{},{}]", Self::int(v, size, dt.is_signed()), b.as_usize())));
                    let dt = self.ty(dt);
                    format!("[\"switch\",{d},{vs},{},{dt},{sp}]", targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = place.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    format!("[\"drop\",{},{},{dt}]", self.place(*place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env, inst);
                    let a = list(args.iter().map(|a| self.operand(&a.node, env, inst)).collect::<Vec<_>>());
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    format!("[\"call\",{f},{a},{},{tg},{sp},{dt}]", self.place(*destination))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) => "divzero".into(),
                        AssertKind::RemainderByZero(_) => "remzero".into(),
                        m => format!("{m:?}").chars().take(40).collect(),
                    };
                    format!("[\"assert\",{},{expected},{},{},{sp}]", self.operand(cond, env, inst), esc(&k), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                k => format!("[\"other\",{}]", esc(&format!("{k:?}"))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{ts}{}}}", list(ss), if b.is_cleanup { ",\"c\":1" } else { "" }));
        }
        let mut meta = String::new();
        let d = inst.def_id();
        if promoted.is_none() {
            let mut im = d;
            if tcx.is_closure_like(im) { im = tcx.typeck_root_def_id(im); }
            if let Some(i) = tcx.impl_of_assoc(im) {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let s = self.ty(st);
                let tr = tcx.impl_opt_trait_ref(i).map(|t| esc(&vpath(tcx, t.instantiate_identity().skip_norm_wip().def_id))).unwrap_or("null".into());
                let derived = tcx.is_builtin_derived(i);
                let _ = write!(meta, ",\"impl\":{{\"self\":{s},\"trait\":{tr},\"derived\":{derived}}}");
            }
            let vis = match tcx.def_kind(d) { DefKind::Closure => "closure", _ => if tcx.visibility(d).is_public() { "pub" } else { "priv" } };
            let _ = write!(meta, ",\"vis\":\"{vis}\",\"name\":{}", esc(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default().as_str()));
            let exported = d.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
            let _ = write!(meta, ",\"exported\":{exported}");
        }
        let sp = self.span(tcx.def_span(d));
        let targs = list(inst.args.types().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
        self.functions.push(format!("{}:{{\"path\":{},\"args\":{},\"span\":{},\"argc\":{},\"spread\":{},\"normalized\":{ok},\"root\":{root},\"generic\":{},\"local\":{},\"closure\":{},\"locals\":{locals},\"names\":{},\"blocks\":{}{meta}}}",
            esc(key), esc(&vpath(tcx, d)), targs, esc(&sp), body.arg_count,
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            inst.args.has_param(), d.is_local(), tcx.is_closure_like(d), list(names), list(blocks)));
    }
}

struct Cb { out: String, follow: Vec<String> }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump { tcx, types: vec![], type_ids: HashMap::new(), adts: HashMap::new(), functions: vec![], seen: HashSet::new(), queue: VecDeque::new(), follow: self.follow.clone() };
        let mut other = vec![];
        let mut unsafes = vec![];
        for l in tcx.hir_body_owners() {
            let id = l.to_def_id();
            match tcx.def_kind(id) {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = ty::GenericArgs::identity_for_item(tcx, id);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let i = Instance::new_raw(id, args);
                    let k = d.key(&i);
                    let env = ty::TypingEnv::post_analysis(tcx, id);
                    d.enqueue(k, i, env, None, true);
                    if tcx.fn_sig(id).skip_binder().safety().is_unsafe() { unsafes.push(format!("[\"unsafe fn\",{},{}]", esc(&vpath(tcx, id)), esc(&d.span(tcx.def_span(id))))); }
                }
                DefKind::Closure => {}
                k => other.push(format!("[{},{},{}]", esc(&format!("{k:?}")), esc(&vpath(tcx, id)), esc(&d.span(tcx.def_span(id))))),
            }
        }
        // unsafe blocks, unsafe impls and statics, wherever they are
        struct V<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<String> }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    let l = self.tcx.sess.source_map().lookup_char_pos(b.span.source_callsite().lo());
                    let own = self.tcx.hir_enclosing_body_owner(b.hir_id);
                    self.out.push(format!("[\"unsafe block\",{},{}]", esc(&vpath(self.tcx, own.to_def_id())), esc(&place(&l))));
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        tcx.hir_visit_all_item_likes_in_crate(&mut V { tcx, out: &mut unsafes });
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            let k = tcx.def_kind(did);
            if matches!(k, DefKind::Static { .. } | DefKind::Impl { .. } | DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::ForeignMod | DefKind::GlobalAsm | DefKind::Trait) {
                let reach = tcx.effective_visibilities(()).is_reachable(id);
                let sp = d.span(tcx.def_span(did));
                let mut extra = String::from("null");
                let mut mutable = false;
                if let DefKind::Static { mutability, .. } = k {
                    mutable = mutability.is_mut();
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    extra = format!("{{\"type\":{},\"freeze\":{},\"tls\":{}}}", d.ty(t), t.is_freeze(tcx, ty::TypingEnv::post_analysis(tcx, did)), tcx.is_thread_local_static(did));
                }
                if matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union) {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    extra = d.ty(t).to_string();
                }
                if let DefKind::Impl { .. } = k {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let s = d.ty(t);
                    let tr = tcx.impl_opt_trait_ref(did).map(|t| esc(&vpath(tcx, t.instantiate_identity().skip_norm_wip().def_id))).unwrap_or("null".into());
                    let uns = tcx.impl_opt_trait_ref(did).map(|_| tcx.impl_trait_header(did).safety.is_unsafe()).unwrap_or(false);
                    extra = format!("{{\"self\":{s},\"trait\":{tr},\"unsafe\":{uns},\"derived\":{}}}", tcx.is_builtin_derived(did));
                }
                items.push(format!("[{},{},{},{reach},{mutable},{extra}]", esc(format!("{k:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap()), esc(&vpath(tcx, did)), esc(&sp)));
            }
        }
        while let Some((k, i, env, p, root)) = d.queue.pop_front() {
            d.function(&k, i, env, p, root);
        }
        // what the types of the crate promise
        let mut autos = vec![];
        let mut ts: Vec<(Ty<'tcx>, usize)> = d.type_ids.iter().map(|(t, i)| (*t, *i)).collect();
        ts.sort_by_key(|x| x.1);
        let find = |path: &[&str]| -> Option<DefId> {
            let krate = *tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == path[0])?;
            let mut at = krate.as_def_id();
            for p in &path[1..] {
                at = tcx.module_children(at).iter().find(|c| c.ident.name.as_str() == *p && !matches!(c.res.opt_def_id().map(|x| tcx.def_kind(x)), None | Some(DefKind::Macro(..))))?.res.opt_def_id()?;
            }
            Some(at)
        };
        let traits: Vec<(&str, Option<DefId>)> = vec![
            ("Send", find(&["core", "marker", "Send"])), ("Sync", find(&["core", "marker", "Sync"])),
            ("Unpin", find(&["core", "marker", "Unpin"])), ("Clone", find(&["core", "clone", "Clone"])),
            ("Copy", find(&["core", "marker", "Copy"])), ("Debug", find(&["core", "fmt", "Debug"])),
            ("Default", find(&["core", "default", "Default"])), ("Eq", find(&["core", "cmp", "Eq"])),
            ("PartialEq", find(&["core", "cmp", "PartialEq"])), ("Hash", find(&["core", "hash", "Hash"])),
            ("Ord", find(&["core", "cmp", "Ord"])), ("UnwindSafe", find(&["core", "panic", "UnwindSafe"])),
            ("RefUnwindSafe", find(&["core", "panic", "RefUnwindSafe"])),
        ];
        for (t, i) in ts {
            let ty::Adt(a, _) = *t.kind() else { continue };
            if !a.did().is_local() || t.has_param() || t.has_escaping_bound_vars() || t.has_aliases() { continue; }
            use rustc_infer::infer::TyCtxtInferExt;
            use rustc_trait_selection::infer::InferCtxtExt;
            let env = ty::TypingEnv::fully_monomorphized();
            let mut fs = vec![];
            for (n, id) in &traits {
                let Some(id) = *id else { fs.push(format!("{}:null", esc(n))); continue };
                let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                let gs = tcx.generics_of(id).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count();
                let args: Vec<Ty<'tcx>> = std::iter::repeat(t).take(gs.max(1)).collect();
                let ok = infcx.type_implements_trait(id, args, penv).must_apply_modulo_regions();
                fs.push(format!("{}:{ok}", esc(n)));
            }
            let lts = tcx.generics_of(a.did()).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count();
            let reach = a.did().as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
            autos.push(format!("[{i},{},{lts},{},{reach},{{{}}}]", esc(&d.span(tcx.def_span(a.did()))), t.is_freeze(tcx, env), fs.join(",")));
        }
        let j = format!("{{\"autos\":{},\"crate\":{},\"types\":[{}],\"functions\":{{{}}},\"bodies\":{},\"unsafe\":{},\"items\":{}}}",
            list(autos), esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()), d.types.join(",\n"), d.functions.join(",\n"), list(other), list(unsafes), list(items));
        let _ = &d.adts;
        std::fs::write(&self.out, j).expect("cannot write the dump");
        Compilation::Continue
    }
}

fn exit(code: std::process::ExitCode) -> ! {
    std::process::exit(if format!("{code:?}") == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 })
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls: driver <rustc> <args>
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let out = std::env::var("DUMP_OUT").unwrap_or_default();
    let target = std::env::var("DUMP_CRATE").unwrap_or("opentype".into());
    if name == target && !out.is_empty() {
        for a in ["-Zmir-opt-level=0", "-Coverflow-checks=on", "-Cdebug-assertions=on", "-Cpanic=abort", "-Zalways-encode-mir", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"] { args.push(a.into()); }
        let follow = std::env::var("DUMP_FOLLOW").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out, follow }));
        exit(code);
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop));
        exit(code);
    }
}
