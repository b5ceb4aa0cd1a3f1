//! algofacts: a rustc driver that dumps, for every workspace crate compiled through it, the
//! type-checked program as JSON facts: monomorphic MIR of every local function (and of the small
//! core/alloc combinators it calls), with resolved callees, evaluated constants, field names,
//! ADT definitions, trait impls and spans.  It never runs any of the analysed code.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, GenericArgs, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

/// The path of an item; items of the analysed library keep their defining path when seen from the binary.
fn dps(tcx: TyCtxt<'_>, did: rustc_hir::def_id::DefId) -> String {
    if !did.is_local() && tcx.crate_name(did.krate).as_str() == "algorsand" {
        rustc_middle::ty::print::with_no_visible_paths!(tcx.def_path_str(did))
    } else {
        tcx.def_path_str(did)
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Work<'tcx> { inst: Instance<'tcx>, env: TypingEnv<'tcx> }

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    type_queue: VecDeque<(usize, Ty<'tcx>)>,
    ids: HashMap<Work<'tcx>, usize>,
    queue: VecDeque<(usize, Work<'tcx>, u32)>,
    cur_depth: u32,
    out: Vec<String>,
    statics: BTreeMap<String, String>,
}

const EXT_MODULES: &[&str] = &[
    "core::option::", "core::result::", "core::bool::", "core::cmp::", "core::convert::",
    "core::ops::try_trait", "core::ops::control_flow", "core::mem::", "core::default::",
    "core::ops::function", "core::clone::", "core::borrow::", "core::num::",
    "std::option::", "std::result::", "std::cmp::", "std::convert::", "std::mem::", "std::ops::", "std::default::", "std::clone::", "std::borrow::",
];

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) { return *i; }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        self.type_queue.push_back((i, t));
        i
    }
    fn flush_types(&mut self) {
        while let Some((i, t)) = self.type_queue.pop_front() {
            let j = self.type_one(t);
            self.type_json[i] = j;
        }
    }
    fn type_one(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let s = esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}")));
        match *t.kind() {
            ty::Adt(def, args) => {
                let local = def.did().is_local();
                let path = esc(&dps(tcx, def.did()));
                let targs: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let discrs: Vec<(rustc_abi::VariantIdx, String)> = if def.is_enum() {
                    def.discriminants(tcx).map(|(i, d)| (i, d.val.to_string())).collect()
                } else { vec![] };
                let with_fields = local || def.is_enum() || matches!(tcx.crate_name(def.did().krate).as_str(), "core" | "algorsand");
                let variants = arr(def.variants().iter_enumerated().map(|(vi, v)| {
                    let d = discrs.iter().find(|x| x.0 == vi).map(|x| x.1.clone()).unwrap_or("0".into());
                    let fields = if with_fields { arr(v.fields.iter().map(|f| {
                        let fty = f.ty(tcx, args);
                        let fty = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), fty).unwrap_or(tcx.erase_and_anonymize_regions(fty.skip_norm_wip()));
                        format!("[{},{},{}]", esc(f.name.as_str()), self.ty(fty), if f.vis.is_public() {1} else {0})
                    })) } else { "[]".into() };
                    format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), d, fields)
                }));
                let frz = rustc_middle::ty::TypeVisitableExt::has_param(&t) || t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                format!("{{\"k\":\"{kind}\",\"s\":{s},\"path\":{path},\"local\":{local},\"frz\":{frz},\"args\":{},\"variants\":{variants}}}", arr(targs))
            }
            ty::Ref(_, inner, m) => format!("{{\"k\":\"ref\",\"s\":{s},\"mut\":{},\"of\":{}}}", m.is_mut(), self.ty(inner)),
            ty::RawPtr(inner, m) => format!("{{\"k\":\"ptr\",\"s\":{s},\"mut\":{},\"of\":{}}}", m.is_mut(), self.ty(inner)),
            ty::Slice(inner) => format!("{{\"k\":\"slice\",\"s\":{s},\"of\":{}}}", self.ty(inner)),
            ty::Array(inner, len) => {
                let n = len.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"s\":{s},\"of\":{},\"len\":{n}}}", self.ty(inner))
            }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect(); format!("{{\"k\":\"tuple\",\"s\":{s},\"args\":{}}}", arr(v)) }
            ty::Closure(did, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"closure\",\"s\":{s},\"path\":{},\"args\":{}}}", esc(&dps(tcx, did)), arr(ups))
            }
            ty::FnDef(did, _) => format!("{{\"k\":\"fndef\",\"s\":{s},\"path\":{}}}", esc(&dps(tcx, did))),
            ty::Int(_) => { format!("{{\"k\":\"int\",\"s\":{s},\"signed\":true}}") }
            ty::Uint(_) => format!("{{\"k\":\"int\",\"s\":{s},\"signed\":false}}"),
            ty::Bool => format!("{{\"k\":\"bool\",\"s\":{s}}}"),
            ty::Float(_) => format!("{{\"k\":\"float\",\"s\":{s}}}"),
            ty::Char => format!("{{\"k\":\"char\",\"s\":{s}}}"),
            ty::Str => format!("{{\"k\":\"str\",\"s\":{s}}}"),
            ty::Param(_) => format!("{{\"k\":\"param\",\"s\":{s}}}"),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{s}}}"),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{s}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        }
    }
    fn span(&self, sp: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }
    fn intern(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let mono = !rustc_middle::ty::TypeVisitableExt::has_param(&inst.args);
        let env = if mono { TypingEnv::fully_monomorphized() } else { env };
        let w = Work { inst, env };
        if let Some(i) = self.ids.get(&w) { return *i; }
        let i = self.out.len();
        self.ids.insert(w, i);
        self.out.push(String::new());
        let d = self.cur_depth;
        self.queue.push_back((i, w, d));
        i
    }
    fn want_body(&self, inst: Instance<'tcx>, depth: u32) -> bool {
        let did = inst.def_id();
        let tcx = self.tcx;
        if did.is_local() { return true; }
        if depth > 8 { return false; }
        if !tcx.is_mir_available(did) { return false; }
        let p = dps(tcx, did);
        let p = p.trim_start_matches('<');
        let kp = format!("{}::{}", tcx.crate_name(did.krate), tcx.def_path(did).data.iter().map(|d| d.data.get_opt_name().map(|s| s.to_string()).unwrap_or_default()).collect::<Vec<_>>().join("::"));
        EXT_MODULES.iter().any(|m| p.starts_with(m) || kp.starts_with(m))
    }
    fn run(&mut self) {
        while let Some((i, w, d)) = self.queue.pop_front() {
            self.cur_depth = if w.inst.def_id().is_local() { 0 } else { d + 1 };
            let j = self.instance(i, w, d);
            self.out[i] = j;
        }
        self.flush_types();
    }
    fn instance(&mut self, id: usize, w: Work<'tcx>, depth: u32) -> String {
        let tcx = self.tcx;
        let did = w.inst.def_id();
        let path = esc(&dps(tcx, did));
        let name = esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", w.inst)));
        let krate = esc(tcx.crate_name(did.krate).as_str());
        let (file, line) = self.span(tcx.def_span(did));
        let kind = match w.inst.def {
            InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual", _ => "shim",
        };
        let dk = format!("{:?}", tcx.def_kind(did));
        let targs: Vec<String> = w.inst.args.types().map(|t| self.ty(t).to_string()).collect();
        let mut trait_of = "null".to_string();
        let mut self_ty = "null".to_string();
        if let Some(ai) = tcx.opt_associated_item(did) {
            let parent = ai.container_id(tcx);
            match tcx.def_kind(parent) {
                DefKind::Trait => { trait_of = esc(&dps(tcx, parent)); if let Some(t) = w.inst.args.types().next() { self_ty = self.ty(t).to_string(); } }
                DefKind::Impl { of_trait } => {
                    if of_trait { let tr = tcx.impl_trait_ref(parent).skip_binder(); trait_of = esc(&dps(tcx, tr.def_id)); }
                    let n = tcx.generics_of(parent).count();
                    let st = if w.inst.args.len() >= n {
                        let sub = tcx.mk_args(&w.inst.args[..n]);
                        tcx.type_of(parent).instantiate(tcx, sub).skip_norm_wip()
                    } else { tcx.type_of(parent).skip_binder() };
                    let st = tcx.erase_and_anonymize_regions(st);
                    self_ty = self.ty(st).to_string();
                }
                _ => {}
            }
        }
        let assoc = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let vis = if did.is_local() && matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { tcx.visibility(did).is_public() } else { false };
        let derived = tcx.opt_associated_item(did).map(|a| tcx.is_automatically_derived(a.container_id(tcx))).unwrap_or(false);
        let head = format!("\"id\":{id},\"path\":{path},\"name\":{name},\"krate\":{krate},\"local\":{},\"kind\":\"{kind}\",\"dk\":{},\"file\":{},\"line\":{line},\"targs\":{},\"trait\":{trait_of},\"self\":{self_ty},\"item\":{},\"pub\":{vis},\"derived\":{derived}",
            did.is_local(), esc(&dk), esc(&file), arr(targs), esc(&assoc));
        let has = matches!(w.inst.def, InstanceKind::Item(_)) && self.want_body(w.inst, depth)
            && (tcx.is_mir_available(did)) && !tcx.is_foreign_item(did);
        // closure-call / fn-ptr shims
        if !has {
            let mut extra = String::new();
            if let InstanceKind::Shim(ShimKind::ClosureOnce { .. }) = w.inst.def {
                if let ty::Closure(cd, cargs) = w.inst.args.type_at(0).kind() {
                    let ci = Instance::new_raw(*cd, cargs);
                    let k = self.intern(ci, w.env);
                    extra = format!(",\"shim_of\":{k}");
                }
            }
            if let InstanceKind::Shim(ShimKind::FnPtr(_, t)) = w.inst.def {
                if let ty::FnDef(fd, fargs) = t.kind() {
                    if let Ok(Some(fi)) = Instance::try_resolve(tcx, w.env, *fd, fargs.no_bound_vars().unwrap()) {
                        let k = self.intern(fi, w.env);
                        extra = format!(",\"shim_of\":{k}");
                    }
                }
            }
            return format!("{{{head}{extra}}}");
        }
        let body = tcx.instance_mir(w.inst.def);
        let body: Body<'tcx> = match w.inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, w.env, EarlyBinder::bind(tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => return format!("{{{head},\"normerr\":true}}"),
        };
        let b = self.body(&body, w.env);
        let promoted = if did.is_local() && matches!(tcx.def_kind(did), DefKind::Fn|DefKind::AssocFn|DefKind::Closure) {
            let ps = tcx.promoted_mir(did);
            let mut v = vec![];
            for p in ps.iter() {
                match w.inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, w.env, EarlyBinder::bind(tcx, p.clone())) {
                    Ok(pb) => v.push(format!("{{{}}}", self.body(&pb, w.env))),
                    Err(_) => v.push("null".into()),
                }
            }
            arr(v)
        } else { "[]".into() };
        format!("{{{head},{b},\"promoted\":{promoted}}}")
    }
    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let locals = arr(body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect::<Vec<_>>());
        let mut names = vec![];
        let mut ups: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.push(format!("\"{}\":{}", p.local.as_usize(), esc(v.name.as_str()))); }
                else if p.local.as_usize() == 1 { ups.push(format!("[{},{}]", esc(v.name.as_str()), self.place(&p, body))); }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for st in &bb.statements {
                let x = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (_, line) = self.span(st.source_info.span);
                        format!("[\"=\",{},{},{}]", self.place(&b.0, body), self.rvalue(&b.1, body, env), line)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(place, body), variant_index.as_usize()),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(i) => format!("[\"intr\",{}]", esc(&format!("{i:?}"))),
                    _ => continue,
                };
                ss.push(x);
            }
            let t = bb.terminator();
            let (_, line) = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tv = arr(targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())));
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr, body, env), self.ty(discr.ty(&body.local_decls, self.tcx)), tv, targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{},{}]", self.place(place, body), self.ty(place.ty(&body.local_decls, self.tcx).ty), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.callee(func, body, env);
                    let a = arr(args.iter().map(|a| self.operand(&a.node, body, env)).collect::<Vec<_>>());
                    format!("[\"call\",{},{},{},{},{}]", f, a, self.place(destination, body), target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), line)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len, body, env), self.operand(index, body, env)]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![self.operand(a, body, env), self.operand(b, body, env)]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(a, body, env)]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.operand(a, body, env)]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.operand(a, body, env)]),
                        other => (format!("{}", other.description_safe()), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", self.operand(cond, body, env), expected, esc(&k), arr(ops), target.as_usize(), line)
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{},\"c\":{}}}", arr(ss), tj, line, if bb.is_cleanup {1} else {0}));
        }
        format!("\"argc\":{},\"spread\":{},\"locals\":{locals},\"names\":{{{}}},\"upvars\":{},\"blocks\":{}", body.arg_count, body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()), {
            let mut seen = std::collections::HashSet::new();
            names.into_iter().filter(|n| seen.insert(n.split(':').next().unwrap().to_string())).collect::<Vec<_>>().join(",")
        }, arr(ups), arr(blocks))
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("[{}", p.local.as_usize());
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            s.push(',');
            match e {
                ProjectionElem::Deref => s.push_str("\"*\""),
                ProjectionElem::Field(f, fty) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index { Some(v) => def.variant(v), None => def.non_enum_variant() };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(s, "[\"f\",{},{},{}]", esc(&name), f.as_usize(), self.ty(fty));
                }
                ProjectionElem::Index(l) => { let _ = write!(s, "[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(s, "[\"ci\",{offset},{min_length},{from_end}]"); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(s, "[\"ss\",{from},{to},{from_end}]"); }
                ProjectionElem::Downcast(_, v) => {
                    let n = match pt.ty.kind() { ty::Adt(def, _) => def.variant(v).name.to_string(), _ => v.as_usize().to_string() };
                    let _ = write!(s, "[\"v\",{},{}]", esc(&n), v.as_usize());
                }
                _ => s.push_str("\"?\""),
            }
            pt = pt.projection_ty(tcx, e);
        }
        s.push(']');
        s
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body, env)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o, body, env), n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", if matches!(bk, BorrowKind::Mut { .. }) { 1 } else { 0 }, self.place(p, body)),
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", if format!("{k:?}").contains("Mut") { 1 } else { 0 }, self.place(p, body)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", if m.is_mut() {1} else {0}, self.place(p, body)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, body)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&dps(self.tcx, *d))),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let kk = format!("{k:?}");
                // closures / fn items coerced to fn pointers keep their identity
                format!("[\"cast\",{},{},{},{}]", esc(&kk), self.operand(o, body, env), self.ty(from), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",\"{op:?}\",{},{},{}]", self.operand(&b.0, body, env), self.operand(&b.1, body, env), self.ty(b.0.ty(&body.local_decls, self.tcx))),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{op:?}\",{},{}]", self.operand(o, body, env), self.ty(o.ty(&body.local_decls, self.tcx))),
            Rvalue::Discriminant(p) => format!("[\"discr\",{},{}]", self.place(p, body), self.ty(p.ty(&body.local_decls, self.tcx).ty)),
            Rvalue::Aggregate(k, ops) => {
                let os = arr(ops.iter().map(|o| self.operand(o, body, env)).collect::<Vec<_>>());
                match &**k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},{os}]", self.ty(*t)),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,{os}]"),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let vd = def.variant(*v);
                        let fns = arr(vd.fields.iter().map(|f| esc(f.name.as_str())));
                        let t = Ty::new_adt(self.tcx, def, args);
                        format!("[\"agg\",\"adt\",{},{os},{},{},{fns}]", self.ty(t), v.as_usize(), esc(vd.name.as_str()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let id = self.intern(inst, env);
                        format!("[\"agg\",\"closure\",{id},{os}]")
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",null,{os}]"),
                    _ => format!("[\"agg\",\"other\",null,{os}]"),
                }
            }
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, body, env)),
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, body)),
            Operand::Constant(c) => self.constant(&c.const_, env, c.span),
            Operand::RuntimeChecks(r) => format!("[\"rtc\",{}]", esc(&format!("{r:?}"))),
        }
    }
    fn fn_json(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let path = dps(tcx, did);
        let targs: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
        let mut id = "null".to_string();
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, did, args) {
                if !matches!(i.def, InstanceKind::Shim(ShimKind::DropGlue(..))) { id = self.intern(i, env).to_string(); }
            }
        }
        let item = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let tr = tcx.opt_associated_item(did).and_then(|a| a.trait_container(tcx)).map(|t| esc(&dps(tcx, t))).unwrap_or("null".into());
        format!("[\"fn\",{},{},{},{},{}]", esc(&path), id, arr(targs), esc(&item), tr)
    }
    fn callee(&mut self, f: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = f.ty(&body.local_decls, self.tcx);
        if let ty::FnDef(did, args) = t.kind() {
            return self.fn_json(*did, args.no_bound_vars().unwrap(), env);
        }
        format!("[\"ind\",{}]", self.operand(f, body, env))
    }
    fn constant(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>, sp: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(did, args) = t.kind() {
            return format!("[\"cfn\",{}]", self.fn_json(*did, args.no_bound_vars().unwrap(), env));
        }
        let mut name = "null".to_string();
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted { return format!("[\"prom\",{},{}]", p.as_usize(), self.ty(t)); }
            name = esc(&dps(tcx, u.def));
        }
        if let mir::Const::Ty(_, ct) = c { if let ty::ConstKind::Param(p) = ct.kind() { return format!("[\"c\",{},[\"param\",{}],null]", self.ty(t), esc(p.name.as_str())); } }
        let v = match c.eval(tcx, env, sp) {
            Ok(v) => self.const_value(v, t, env, 0),
            Err(_) => "[\"unk\"]".into(),
        };
        format!("[\"c\",{},{},{}]", self.ty(t), v, name)
    }
    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: u32) -> String {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                if t.is_bool() || t.is_integral() || t.is_char() {
                    if t.is_signed() { return format!("[\"int\",{}]", i.to_int(i.size())); }
                    return format!("[\"int\",{}]", i.to_bits(i.size()));
                }
                self.destructure(v, t, env, depth)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                self.pointee(prov.alloc_id(), off, t, env, depth, None)
            }
            ConstValue::ZeroSized => {
                match t.kind() {
                    ty::Closure(d, args) => { let id = self.intern(Instance::new_raw(*d, args), env); format!("[\"closure\",{id}]") }
                    ty::Adt(..) => self.destructure(v, t, env, depth),
                    _ => "[\"zst\"]".into(),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                    let is_str = t.builtin_deref(true).map(|x| x.is_str()).unwrap_or(false);
                    if is_str { return format!("[\"str\",{}]", esc(&String::from_utf8_lossy(bytes))); }
                    return format!("[\"bytes\",{}]", arr(bytes.iter().map(|b| b.to_string())));
                }
                "[\"unk\"]".into()
            }
            ConstValue::Indirect { alloc_id, offset } => self.memory(alloc_id, offset, t, env, depth),
        }
    }
    fn pointee(&mut self, id: AllocId, off: rustc_abi::Size, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: u32, meta: Option<u64>) -> String {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => format!("[\"static\",{}]", esc(&dps(tcx, d))),
            GlobalAlloc::Function { instance } => { let k = self.intern(instance, env); format!("[\"fnptr\",{k}]") }
            GlobalAlloc::Memory(_) => {
                let Some(inner) = t.builtin_deref(true) else { return "[\"unk\"]".into() };
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let Some(n) = meta else { return "[\"unk\"]".into() };
                        let el = match inner.kind() { ty::Slice(e) => *e, _ => tcx.types.u8 };
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(id) {
                            if el == tcx.types.u8 {
                                let s = off.bytes() as usize;
                                let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(s..s + n as usize);
                                if inner.is_str() { return format!("[\"str\",{}]", esc(&String::from_utf8_lossy(bytes))); }
                                return format!("[\"bytes\",{}]", arr(bytes.iter().map(|b| b.to_string())));
                            }
                        }
                        let Ok(l) = tcx.layout_of(env.as_query_input(el)) else { return "[\"unk\"]".into() };
                        let v: Vec<String> = (0..n).map(|i| self.memory(id, off + l.size * i, el, env, depth + 1)).collect();
                        format!("[\"arr\",{}]", arr(v))
                    }
                    _ => format!("[\"ref\",{}]", self.memory(id, off, inner, env, depth + 1)),
                }
            }
            _ => "[\"unk\"]".into(),
        }
    }
    fn memory(&mut self, id: AllocId, off: rustc_abi::Size, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: u32) -> String {
        let tcx = self.tcx;
        if depth > 12 { return "[\"unk\"]".into(); }
        let GlobalAlloc::Memory(a) = tcx.global_alloc(id) else { return "[\"unk\"]".into() };
        let Ok(l) = tcx.layout_of(env.as_query_input(t)) else { return "[\"unk\"]".into() };
        let ptr_size = tcx.data_layout.pointer_size();
        match t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => {
                match a.inner().read_scalar(&tcx, mir::interpret::alloc_range(off, l.size), false) {
                    Ok(Scalar::Int(i)) => if t.is_signed() { format!("[\"int\",{}]", i.to_int(i.size())) } else { format!("[\"int\",{}]", i.to_bits(i.size())) },
                    _ => "[\"unk\"]".into(),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match a.inner().read_scalar(&tcx, mir::interpret::alloc_range(off, ptr_size), true) {
                    Ok(Scalar::Ptr(p, _)) => {
                        let (prov, o) = p.into_raw_parts();
                        let meta = if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                            match a.inner().read_scalar(&tcx, mir::interpret::alloc_range(off + ptr_size, ptr_size), false) { Ok(Scalar::Int(i)) => Some(i.to_bits(i.size()) as u64), _ => None }
                        } else { None };
                        self.pointee(prov.alloc_id(), o, t, env, depth + 1, meta)
                    }
                    _ => if matches!(inner.kind(), ty::Slice(_)) { "[\"arr\",[]]".into() } else if inner.is_str() { "[\"str\",\"\"]".into() } else { "[\"unk\"]".into() },
                }
            }
            ty::Array(el, _) => {
                let Some(n) = (match t.kind() { ty::Array(_, n) => n.try_to_target_usize(tcx), _ => None }) else { return "[\"unk\"]".into() };
                let Ok(el_l) = tcx.layout_of(env.as_query_input(*el)) else { return "[\"unk\"]".into() };
                if *el == tcx.types.u8 {
                    let s = off.bytes() as usize;
                    let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(s..s + n as usize);
                    return format!("[\"bytes\",{}]", arr(bytes.iter().map(|b| b.to_string())));
                }
                let v: Vec<String> = (0..n).map(|i| self.memory(id, off + el_l.size * i, *el, env, depth + 1)).collect();
                format!("[\"arr\",{}]", arr(v))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().enumerate().map(|(i, x)| self.memory(id, off + l.fields.offset(i), x, env, depth + 1)).collect();
                format!("[\"adt\",0,\"\",{}]", arr(v.into_iter().enumerate().map(|(i, x)| format!("[\"{i}\",{x}]"))))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let v: Vec<String> = def.non_enum_variant().fields.iter_enumerated().map(|(i, f)| {
                    let ft = tcx.normalize_erasing_regions(env, f.ty(tcx, args));
                    format!("[{},{}]", esc(f.name.as_str()), self.memory(id, off + l.fields.offset(i.as_usize()), ft, env, depth + 1))
                }).collect();
                format!("[\"adt\",0,\"\",{}]", arr(v))
            }
            _ => self.destructure(ConstValue::Indirect { alloc_id: id, offset: off }, t, env, depth),
        }
    }
    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: u32) -> String {
        let tcx = self.tcx;
        if depth > 12 || rustc_middle::ty::TypeVisitableExt::has_param(&t) { return "[\"unk\"]".into(); }
        match t.kind() {
            ty::Adt(def, _) if !def.is_union() => {}
            ty::Array(..) | ty::Tuple(..) => {}
            ty::Float(_) => { if let ConstValue::Scalar(Scalar::Int(i)) = v { return format!("[\"float\",\"{}\"]", i.to_bits(i.size())); } return "[\"unk\"]".into(); }
            _ => return "[\"unk\"]".into(),
        }
        match tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(d) => {
                let (vi, vn, fns): (usize, String, Vec<String>) = match (t.kind(), d.variant) {
                    (ty::Adt(def, _), Some(x)) => (x.as_usize(), if def.is_enum() { def.variant(x).name.to_string() } else { String::new() }, def.variant(x).fields.iter().map(|f| f.name.to_string()).collect()),
                    _ => (0, String::new(), (0..d.fields.len()).map(|i| i.to_string()).collect()),
                };
                let fs: Vec<(ConstValue, Ty<'tcx>)> = d.fields.to_vec();
                let v: Vec<String> = fs.into_iter().zip(fns).map(|((cv, ct), n)| format!("[{},{}]", esc(&n), self.const_value(cv, ct, env, depth + 1))).collect();
                if matches!(t.kind(), ty::Array(..)) { return format!("[\"arrn\",{}]", arr(v)); }
                format!("[\"adt\",{vi},{},{}]", esc(&vn), arr(v))
            }
            None => "[\"unk\"]".into(),
        }
    }
}

trait DescSafe { fn description_safe(&self) -> String; }
impl<'tcx> DescSafe for AssertKind<Operand<'tcx>> { fn description_safe(&self) -> String { "other".into() } }

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(outdir) = std::env::var("ALGOFACTS_OUT") else { return Compilation::Continue };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if krate == "build_script_build" { return Compilation::Continue; }
        let mut d = Dump { tcx, types: HashMap::new(), type_json: vec![], type_queue: VecDeque::new(), ids: HashMap::new(), queue: VecDeque::new(), cur_depth: 0, out: vec![], statics: BTreeMap::new() };
        let mut roots = vec![];
        let mut consts = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            let did = ld.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(did) { continue; }
                    let args = GenericArgs::identity_for_item(tcx, did);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let env = if tcx.generics_of(did).requires_monomorphization(tcx) { TypingEnv::post_analysis(tcx, did) } else { TypingEnv::fully_monomorphized() };
                    let inst = Instance::new_raw(did, args);
                    roots.push(d.intern(inst, env));
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(did).requires_monomorphization(tcx) { continue; }
                    let path = dps(tcx, did);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let (file, line) = d.span(tcx.def_span(did));
                    let kind = format!("{:?}", tcx.def_kind(did));
                    let ti = d.ty(t);
                    let v = if matches!(tcx.def_kind(did), DefKind::Static { .. }) {
                        match tcx.eval_static_initializer(did) {
                            Ok(a) => { let id = tcx.reserve_and_set_memory_alloc(a); d.memory(id, rustc_abi::Size::ZERO, t, TypingEnv::fully_monomorphized(), 0) }
                            Err(_) => "[\"unk\"]".to_string(),
                        }
                    } else {
                        match tcx.const_eval_poly(did) { Ok(v) => d.const_value(v, t, TypingEnv::fully_monomorphized(), 0), Err(_) => "[\"unk\"]".to_string() }
                    };
                    consts.push(format!("{{\"path\":{},\"ty\":{ti},\"file\":{},\"line\":{line},\"kind\":{},\"val\":{v}}}", esc(&path), esc(&file), esc(&kind)));
                }
                _ => {}
            }
        }
        // impls
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(did) {
                let st = tcx.erase_and_anonymize_regions(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                let sti = d.ty(st);
                let tr = if of_trait { esc(&dps(tcx, tcx.impl_trait_ref(did).skip_binder().def_id)) } else { "null".into() };
                let items = arr(tcx.associated_item_def_ids(did).iter().map(|x| esc(&dps(tcx, *x))));
                let (file, line) = d.span(tcx.def_span(did));
                let derived = tcx.is_automatically_derived(did);
                impls.push(format!("{{\"trait\":{tr},\"self\":{sti},\"items\":{items},\"file\":{},\"line\":{line},\"derived\":{derived}}}", esc(&file)));
            }
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                let st = tcx.erase_and_anonymize_regions(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                d.ty(st);
            }
        }
        d.run();
        let _ = &d.statics;
        let crate_types = format!("{:?}", tcx.crate_types());
        let json = format!("{{\"crate\":{},\"types_kind\":{},\"roots\":{},\"consts\":{},\"impls\":{},\"types\":{},\"fns\":{}}}\n",
            esc(&krate), esc(&crate_types), arr(roots.iter().map(|x| x.to_string())), arr(consts), arr(impls), arr(d.type_json.iter().cloned()), arr(d.out.iter().cloned()));
        let isbin = crate_types.contains("Executable");
        let f = format!("{}/{}-{}.json", outdir, krate, if isbin { "bin" } else { "lib" });
        std::fs::write(&f, json).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
