// MIR dumper: a rustc driver (used through RUSTC_WORKSPACE_WRAPPER) that writes the
// type-checked, monomorphic MIR of every workspace function -- plus the std glue it
// instantiates -- to $DICE_MIR_OUT/<crate>.jsonl, one JSON object per line.
// It decides nothing: all rules live in the analyses that read its output.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

const WORKSPACE: &[&str] = &["dice_core", "dice_bytecode", "dice_syntax", "dice_compiler", "dice_runtime", "dice", "dice_cli", "dice_probe"];

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

macro_rules! path { ($e:expr) => { with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!($e))) } }

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<String>,
    types: HashMap<String, ()>,
    tyqueue: VecDeque<Ty<'tcx>>,
    out: Vec<String>,
    cur_promoted_owner: Option<String>,
}

impl<'tcx> Dump<'tcx> {
    fn er(&self, a: ty::GenericArgsRef<'tcx>) -> ty::GenericArgsRef<'tcx> { let a: ty::GenericArgsRef<'tcx> = a; self.tcx.erase_and_anonymize_regions(a) }
    fn env(&self) -> TypingEnv<'tcx> { TypingEnv::fully_monomorphized() }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let s = path!(format!("{}", t));
        if self.types.insert(s.clone(), ()).is_none() { self.tyqueue.push_back(t); }
        esc(&s)
    }

    fn is_ws(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate);
        WORKSPACE.contains(&n.as_str())
    }

    fn inst_name(&self, i: Instance<'tcx>) -> String {
        let base = path!(self.tcx.def_path_str_with_args(i.def_id(), &*self.er(i.args)));
        match i.def {
            InstanceKind::Item(_) => base,
            _ => format!("{}#shim", base),
        }
    }

    fn def_name(&self, d: DefId) -> String { path!(self.tcx.def_path_str(d)) }

    // std paths whose bodies are small glue worth following
    fn follow(&self, i: Instance<'tcx>) -> bool {
        if !matches!(i.def, InstanceKind::Item(_)) { return false; }
        let d = i.def_id();
        if self.is_ws(d) {
            // non-generic items of other workspace crates are dumped by their own crate
            if !d.is_local() && !self.tcx.is_closure_like(d) && !self.tcx.generics_of(d).requires_monomorphization(self.tcx) { return false; }
            return self.tcx.is_mir_available(d);
        }
        if !self.tcx.is_mir_available(d) { return false; }
        let n = self.def_name(d);
        let ok = ["core::option::", "core::result::", "core::convert::", "core::bool::", "core::ops::", "core::borrow::"];
        if n.contains("::fmt") || n.contains("hash") { return false; }
        let cr = self.tcx.crate_name(d.krate);
        if cr.as_str() != "core" { return false; }
        ok.iter().any(|p| n.contains(p))
    }

    fn enqueue(&mut self, i: Instance<'tcx>) -> String {
        let n = self.inst_name(i);
        if !i.args.has_param() && self.follow(i) && self.seen.insert(n.clone()) { self.queue.push_back(i); }
        n
    }

    fn scalar_bits(&self, s: Scalar) -> Option<(u128, u64)> {
        match s { Scalar::Int(i) => Some((i.to_bits(i.size()), i.size().bytes())), _ => None }
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 6 { return "{\"unk\":\"deep\"}".into(); }
        match t.kind() {
            ty::FnDef(d, args) => {
                return self.fn_const(*d, args.no_bound_vars().unwrap());
            }
            ty::Closure(d, args) => {
                let i = Instance::new_raw(*d, args);
                let n = self.enqueue(i);
                return format!("{{\"closure\":{},\"f\":[]}}", esc(&n));
            }
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => {
                if let Some(s) = v.try_to_scalar() {
                    if let Some((b, sz)) = self.scalar_bits(s) {
                        let val: i128 = if let ty::Int(_) = t.kind() {
                            let sh = 128 - sz * 8; ((b << sh) as i128) >> sh
                        } else { b as i128 };
                        return format!("{{\"int\":{}}}", val);
                    }
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)));
                }
            }
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    let l: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                    return format!("{{\"bytes\":[{}]}}", l.join(","));
                }
            }
            ty::Adt(def, args) if !def.is_union() && !def.variants().is_empty() => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let vi = d.variant.map(|x| x.as_u32()).unwrap_or(0);
                    let f: Vec<String> = d.fields.iter().map(|(cv, ct)| self.const_value(*cv, *ct, depth + 1)).collect();
                    let ts = self.ty(t);
                    return format!("{{\"adt\":{},\"v\":{},\"f\":[{}]}}", ts, vi, f.join(","));
                }
            }
            ty::Tuple(_) | ty::Array(..) => {
                if t.is_unit() { return "{\"tuple\":[]}".into(); }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let f: Vec<String> = d.fields.iter().map(|(cv, ct)| self.const_value(*cv, *ct, depth + 1)).collect();
                    let k = if matches!(t.kind(), ty::Tuple(_)) { "tuple" } else { "array" };
                    return format!("{{\"{}\":[{}]}}", k, f.join(","));
                }
            }
            ty::Ref(_, inner, _) => {
                if let Some(Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let (prov, off) = p.into_raw_parts();
                    let aid = prov.alloc_id();
                    if let GlobalAlloc::Static(did) = tcx.global_alloc(aid) {
                        if inner.is_sized(tcx, self.env()) && !tcx.is_mutable_static(did) && !tcx.is_foreign_item(did) {
                            let nm = self.def_name(did);
                            if let Ok(a) = tcx.eval_static_initializer(did) {
                                let id = tcx.reserve_and_set_memory_alloc(a);
                                let cv = ConstValue::Indirect { alloc_id: id, offset: off };
                                let iv = self.const_value_indirect(cv, *inner, depth + 1);
                                return format!("{{\"static\":{},\"ref\":{}}}", esc(&nm), iv);
                            }
                        }
                    }
                    if let GlobalAlloc::Memory(_) = tcx.global_alloc(aid) {
                        if inner.is_sized(tcx, self.env()) {
                            let cv = ConstValue::Indirect { alloc_id: aid, offset: off };
                            let iv = self.const_value_indirect(cv, *inner, depth + 1);
                            return format!("{{\"ref\":{}}}", iv);
                        }
                    }
                }
            }
            _ => {}
        }
        let ts = self.ty(t);
        format!("{{\"unk\":{}}}", esc(&format!("{:?}", v)))
    }

    fn const_value_indirect(&mut self, cv: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.const_value(cv, t, depth),
            ty::Ref(_, inner, _) if inner.is_str() => self.const_value(cv, t, depth),
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => {
                if let ConstValue::Indirect { alloc_id, offset } = cv {
                    let alloc = tcx.global_alloc(alloc_id).unwrap_memory();
                    let sz = tcx.layout_of(self.env().as_query_input(t)).unwrap().size;
                    let r = alloc.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, sz), false);
                    if let Ok(s) = r { return self.const_value(ConstValue::Scalar(s), t, depth); }
                }
                "{\"unk\":\"ind\"}".into()
            }
            _ => "{\"unk\":\"indirect\"}".into(),
        }
    }

    fn fn_const(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let path0 = self.def_name(d);
        let mut tr = String::from("null");
        let mut trmeth = String::from("null");
        if let Some(assoc) = tcx.opt_associated_item(d) {
            if let Some(t) = tcx.trait_of_assoc(d) {
                tr = esc(&self.def_name(t));
            } else if let Some(imp) = tcx.impl_of_assoc(d) {
                if let Some(trd) = tcx.impl_opt_trait_id(imp) { tr = esc(&self.def_name(trd)); }
            }
            trmeth = esc(assoc.name().as_str());
        }
        let targs: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t)).collect();
        let (inst, def, kind, derived) = match Instance::try_resolve(tcx, self.env(), d, args) {
            Ok(Some(i)) => {
                let kind = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(_) => "shim",
                    _ => "other",
                };
                let derived = tcx.impl_of_assoc(i.def_id()).map(|im| tcx.is_automatically_derived(im)).unwrap_or(false);
                let n = self.enqueue(i);
                (esc(&n), esc(&self.def_name(i.def_id())), kind, derived)
            }
            _ => ("null".into(), "null".into(), "unresolved", false),
        };
        format!("{{\"fn\":{},\"inst\":{},\"def\":{},\"kind\":\"{}\",\"targs\":[{}],\"trait\":{},\"meth\":{},\"derived\":{}}}",
            esc(&path0), inst, def, kind, targs.join(","), tr, trmeth, derived)
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ts = self.ty(t);
        let mut name = String::from("null");
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                let owner = Instance::new_raw(uv.def, uv.args);
                let on = self.inst_name(owner);
                return format!("{{\"ty\":{},\"promoted\":{},\"owner\":{}}}", ts, p.as_u32(), esc(&on));
            }
            name = esc(&path!(tcx.def_path_str_with_args(uv.def, self.er(uv.args))));
        }
        if let ty::FnDef(d, a) = t.kind() {
            let v = self.fn_const(*d, a.no_bound_vars().unwrap());
            return format!("{{\"ty\":{},\"v\":{}}}", ts, v);
        }
        let v = match c.const_.eval(tcx, self.env(), c.span) {
            Ok(v) => self.const_value(v, t, 0),
            Err(_) => "{\"unk\":\"evalerr\"}".into(),
        };
        format!("{{\"ty\":{},\"name\":{},\"v\":{}}}", ts, name, v)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => { let ts = self.ty(t); format!("[\"f\",{},{}]", f.as_u32(), ts) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"dc\",{}]", v.as_u32()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_u32(), pr.join(","))
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => { let s = self.place(p); format!("[\"c\",{}]", s) }
            Operand::Move(p) => { let s = self.place(p); format!("[\"m\",{}]", s) }
            Operand::Constant(c) => { let s = self.konst(c); format!("[\"k\",{}]", s) }
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => { let s = self.operand(o); format!("[\"use\",{}]", s) }
            Rvalue::Repeat(o, n) => { let s = self.operand(o); format!("[\"repeat\",{},{}]", s, n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())) }
            Rvalue::Ref(_, bk, p) => { let s = self.place(p); format!("[\"ref\",{},{}]", s, if matches!(bk, BorrowKind::Mut { .. }) { 1 } else { 0 }) }
            Rvalue::RawPtr(_, p) => { let s = self.place(p); format!("[\"ref\",{},2]", s) }
            Rvalue::Cast(k, o, t) => {
                let mut extra = String::from("null");
                if let CastKind::PointerCoercion(pc, _) = k {
                    // resolve reified fn pointers / closures
                    if let Operand::Constant(c) = o {
                        if let ty::FnDef(..) | ty::Closure(..) = c.const_.ty().kind() { extra = self.konst(c); }
                    }
                }
                let s = self.operand(o); let ts = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), s, ts, extra)
            }
            Rvalue::BinaryOp(op, b) => { let a = self.operand(&b.0); let c = self.operand(&b.1); format!("[\"bin\",\"{:?}\",{},{}]", op, a, c) }
            Rvalue::UnaryOp(op, o) => { let s = self.operand(o); format!("[\"un\",\"{:?}\",{}]", op, s) }
            Rvalue::Discriminant(p) => { let s = self.place(p); format!("[\"discr\",{}]", s) }
            Rvalue::CopyForDeref(p) => { let s = self.place(p); format!("[\"use\",[\"c\",{}]]", s) }
            Rvalue::Reborrow(_, _, p) => { let s = self.place(p); format!("[\"use\",[\"c\",{}]]", s) }
            Rvalue::Aggregate(k, ops) => {
                let f: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(t));
                        let ts = self.ty(t);
                        format!("[\"adt\",{},{}]", ts, v.as_u32())
                    }
                    AggregateKind::Closure(d, args) => {
                        let i = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(*args));
                        let n = self.enqueue(i);
                        format!("[\"closure\",{}]", esc(&n))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", k, f.join(","))
            }
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }

    fn body(&mut self, name: &str, b: &Body<'tcx>, extra: String) {
        let mut s = String::new();
        let (file, ln) = self.line(b.span);
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let ps = self.place(&p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), ps));
            }
        }
        let mut blocks = vec![];
        for (bb, data) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &data.statements {
                let l = self.line(x.source_info.span).1;
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"sd\",{},{},{}]", p, variant_index.as_u32(), l));
                    }
                    StatementKind::StorageDead(lc) => st.push(format!("[\"dead\",{}]", lc.as_u32())),
                    _ => {}
                }
            }
            let t = data.terminator();
            let l = self.line(t.source_info.span).1;
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dty = discr.ty(&b.local_decls, self.tcx);
                    let dts = self.ty(dty);
                    let arms: Vec<String> = targets.iter().map(|(v, t)| {
                        let v: i128 = match dty.kind() {
                            ty::Int(i) => { let bits = i.bit_width().unwrap_or(64) as u32; let sh = 128 - bits; ((v << sh) as i128) >> sh }
                            _ => v as i128,
                        };
                        format!("[{},{}]", v, t.as_u32())
                    }).collect();
                    format!("[\"switch\",{},[{}],{},{}]", d, arms.join(","), targets.otherwise().as_u32(), dts)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); format!("[\"drop\",{},{}]", target.as_u32(), p) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},[{}],{},{}]", f, a.join(","), d, target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},{},\"{}\"]", c, expected, target.as_u32(), m)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{},\"l\":{},\"c\":{}}}", st.join(","), ts, l, if data.is_cleanup { 1 } else { 0 }));
        }
        write!(s, "{{\"k\":\"fn\",\"name\":{},\"file\":{},\"line\":{},\"argc\":{},\"locals\":[{}],\"names\":[{}],\"spread\":{},\"blocks\":[{}]{}}}",
            esc(name), esc(&file), ln, b.arg_count, locals.join(","), names.join(","),
            b.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into()), blocks.join(","), extra).unwrap();
        self.out.push(s);
    }

    fn process(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let name = self.inst_name(i);
        let d = i.def_id();
        let body = tcx.instance_mir(i.def);
        let body: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, body.clone()));
        let def = esc(&self.def_name(d));
        let (mut tr, mut derived, mut selfty) = (String::from("null"), false, String::from("null"));
        let base = tcx.typeck_root_def_id(d);
        if let Some(im) = tcx.impl_of_assoc(base) {
            derived = tcx.is_automatically_derived(im);
            if let Some(t) = tcx.impl_opt_trait_id(im) { tr = esc(&self.def_name(t)); }
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            selfty = esc(&path!(format!("{}", st)));
        }
        let meth = esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str());
        let krate = tcx.crate_name(d.krate).to_string();
        let vis = if tcx.def_kind(d) == DefKind::Closure { false } else { tcx.visibility(d).is_public() };
        let extra = format!(",\"def\":{},\"trait\":{},\"derived\":{},\"self\":{},\"meth\":{},\"crate\":{},\"closure\":{},\"pub\":{}", def, tr, derived, selfty, meth, esc(&krate), tcx.is_closure_like(d), vis);
        self.body(&name, &body, extra);
        // promoteds
        if tcx.is_mir_available(d) && matches!(i.def, InstanceKind::Item(_)) {
            let prom = tcx.promoted_mir(d);
            for (pi, pb) in prom.iter_enumerated() {
                let pb: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, pb.clone()));
                self.body(&format!("{}#promoted{}", name, pi.as_u32()), &pb, ",\"promoted\":true".to_string());
            }
        }
    }

    fn types(&mut self) {
        let tcx = self.tcx;
        while let Some(t) = self.tyqueue.pop_front() {
            let s = path!(format!("{}", t));
            let desc = match t.kind() {
                ty::Adt(def, args) => {
                    let dn = self.def_name(def.did());
                    let expand = self.is_ws(def.did()) || ["core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow",
                        "core::ops::range::Range", "core::ops::range::RangeFrom", "core::ops::range::RangeTo", "core::ops::range::RangeInclusive", "core::convert::Infallible", "core::cmp::Ordering"].contains(&dn.as_str());
                    let targs: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t)).collect();
                    let mut vs = vec![];
                    if expand {
                        for (vi, v) in def.variants().iter_enumerated() {
                            let d: i128 = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                            let fs: Vec<String> = v.fields.iter().map(|f| {
                                let ft = f.ty(tcx, args);
                                let ft = tcx.normalize_erasing_regions(self.env(), ft);
                                let fts = self.ty(ft);
                                format!("[{},{}]", esc(f.name.as_str()), fts)
                            }).collect();
                            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(v.name.as_str()), d, fs.join(",")));
                        }
                    }
                    format!("\"kind\":\"{}\",\"def\":{},\"targs\":[{}],\"ws\":{},\"exp\":{},\"variants\":[{}]", if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" },
                        esc(&dn), targs.join(","), self.is_ws(def.did()), expand, vs.join(","))
                }
                ty::Ref(_, i, m) => { let x = self.ty(*i); format!("\"kind\":\"ref\",\"to\":{},\"mut\":{}", x, m.is_mut()) }
                ty::RawPtr(i, m) => { let x = self.ty(*i); format!("\"kind\":\"ptr\",\"to\":{},\"mut\":{}", x, m.is_mut()) }
                ty::Slice(i) => { let x = self.ty(*i); format!("\"kind\":\"slice\",\"of\":{}", x) }
                ty::Array(i, n) => { let x = self.ty(*i); format!("\"kind\":\"array\",\"of\":{},\"n\":{}", x, n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())) }
                ty::Tuple(ts) => { let x: Vec<String> = ts.iter().map(|t| self.ty(t)).collect(); format!("\"kind\":\"tuple\",\"of\":[{}]", x.join(",")) }
                ty::Int(i) => format!("\"kind\":\"int\",\"signed\":true,\"bits\":{}", i.bit_width().unwrap_or(64)),
                ty::Uint(i) => format!("\"kind\":\"int\",\"signed\":false,\"bits\":{}", i.bit_width().unwrap_or(64)),
                ty::Closure(d, args) => { 
                    let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                    let n = { let i = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(*args)); self.enqueue(i) };
                    format!("\"kind\":\"closure\",\"inst\":{},\"up\":[{}]", esc(&n), up.join(",")) }
                ty::Bool => "\"kind\":\"bool\"".into(),
                ty::Char => "\"kind\":\"char\"".into(),
                ty::Str => "\"kind\":\"str\"".into(),
                ty::Float(_) => "\"kind\":\"float\"".into(),
                ty::Never => "\"kind\":\"never\"".into(),
                ty::FnDef(d, a) => { let v = self.fn_const(*d, a.no_bound_vars().unwrap()); format!("\"kind\":\"fndef\",\"v\":{}", v) }
                ty::FnPtr(..) => "\"kind\":\"fnptr\"".into(),
                ty::Dynamic(..) => "\"kind\":\"dyn\"".into(),
                _ => "\"kind\":\"other\"".into(),
            };
            self.out.push(format!("{{\"k\":\"ty\",\"name\":{},{}}}", esc(&s), desc));
        }
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut generic_defs = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {}
                DefKind::Static { .. } => {
                    if !tcx.is_mutable_static(d) && !tcx.is_foreign_item(d) {
                        let n = self.def_name(d);
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        if let Ok(a) = tcx.eval_static_initializer(d) {
                            let id = tcx.reserve_and_set_memory_alloc(a);
                            let cv = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO };
                            let ts = self.ty(t);
                            let vs = self.const_value_indirect(cv, tcx.erase_and_anonymize_regions(t), 0);
                            let (f, l) = self.line(tcx.def_span(d));
                            self.out.push(format!("{{\"k\":\"const\",\"static\":true,\"name\":{},\"ty\":{},\"v\":{},\"file\":{},\"line\":{}}}", esc(&n), ts, vs, esc(&f), l));
                        }
                    }
                    continue;
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    // named constants: value + path
                    if !tcx.generics_of(d).requires_monomorphization(tcx) {
                        let n = self.def_name(d);
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        if let Ok(v) = tcx.const_eval_poly(d) {
                            let ts = self.ty(t);
                            let vs = self.const_value(v, tcx.erase_and_anonymize_regions(t), 0);
                            let (f, l) = self.line(tcx.def_span(d));
                            self.out.push(format!("{{\"k\":\"const\",\"name\":{},\"ty\":{},\"v\":{},\"file\":{},\"line\":{}}}", esc(&n), ts, vs, esc(&f), l));
                        }
                    }
                    continue;
                }
                _ => continue,
            }
            let g = tcx.generics_of(d);
            if g.requires_monomorphization(tcx) { generic_defs.push(d); continue; }
            let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => unreachable!(),
            });
            let i = Instance::new_raw(d, args);
            self.enqueue(i);
        }
        loop {
            while let Some(i) = self.queue.pop_front() { self.process(i); }
            self.types();
            if self.queue.is_empty() && self.tyqueue.is_empty() { break; }
        }
        for d in generic_defs {
            let (f, l) = self.line(tcx.def_span(d));
            self.out.push(format!("{{\"k\":\"generic\",\"name\":{},\"file\":{},\"line\":{}}}", esc(&self.def_name(d)), esc(&f), l));
        }
        let dir = std::env::var("DICE_MIR_OUT").expect("DICE_MIR_OUT");
        let p = format!("{}/{}.jsonl", dir, krate);
        let mut f = std::io::BufWriter::new(std::fs::File::create(&p).unwrap());
        for l in &self.out { f.write_all(l.as_bytes()).unwrap(); f.write_all(b"\n").unwrap(); }
        writeln!(f, "{{\"k\":\"end\",\"crate\":{}}}", esc(&krate)).unwrap();
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if WORKSPACE.contains(&krate.as_str()) && std::env::var("DICE_MIR_OUT").is_ok() {
            let mut d = Dump { tcx, queue: VecDeque::new(), seen: HashSet::new(), types: HashMap::new(), tyqueue: VecDeque::new(), out: vec![], cur_promoted_owner: None };
            d.run();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [wrapper, rustc, args...]
    args.remove(0);
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Coverflow-checks=off".into());
    args.push("-Zalways-encode-mir".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
