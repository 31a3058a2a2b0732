//! rustc driver that dumps the type-checked MIR of the `foca` crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc, the rest its
//! arguments.  When the crate being compiled is `foca` (lib) and VP_MIR_OUT is
//! set, the resolved program (bodies, promoteds, ADTs, callees) is written
//! there after analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn obj(v: Vec<(&str, String)>) -> String {
    let v: Vec<String> = v.into_iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect();
    format!("{{{}}}", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(DefId, usize)>,
    seen: HashSet<DefId>,
    bodies: Vec<String>,
    adts: HashMap<String, String>,
}

impl<'tcx> Dump<'tcx> {
    fn key(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(d.krate), p.to_string_no_crate_verbose())
    }
    fn ty(&self, t: ty::Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(format!("{t}"))
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    /// macro the span comes from, if any (outermost name chain)
    fn mac(&self, s: Span) -> Option<String> {
        let mut out = vec![];
        let mut cur = s;
        let mut n = 0;
        while cur.from_expansion() && n < 20 {
            let d = cur.ctxt().outer_expn_data();
            out.push(d.kind.descr().to_string());
            cur = d.call_site;
            n += 1;
        }
        if out.is_empty() { None } else { Some(out.join("<")) }
    }
    fn note_adt(&mut self, a: ty::AdtDef<'tcx>) -> String {
        let k = self.key(a.did());
        if !self.adts.contains_key(&k) {
            self.adts.insert(k.clone(), String::new());
            let mut vs = vec![];
            for (vi, v) in a.variants().iter_enumerated() {
                let discr = if a.is_enum() {
                    format!("{}", a.discriminant_for_variant(self.tcx, vi).val)
                } else { "0".into() };
                let fs: Vec<String> = v.fields.iter().map(|f| {
                    let t = self.tcx.type_of(f.did).skip_binder();
                    obj(vec![("name", esc(f.name.as_str())), ("ty", esc(&self.ty(t))),
                             ("pub", format!("{}", self.tcx.visibility(f.did).is_public()))])
                }).collect();
                vs.push(obj(vec![("name", esc(v.name.as_str())), ("discr", discr), ("fields", list(fs))]));
            }
            let s = obj(vec![
                ("path", esc(&self.tcx.def_path_str(a.did()))),
                ("kind", esc(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })),
                ("local", format!("{}", a.did().is_local())),
                ("variants", list(vs)),
            ]);
            self.adts.insert(k.clone(), s);
        }
        k
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut els = vec![];
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, self.tcx);
            let e = match elem {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(idx, _) => {
                    let mut owner = String::new();
                    let name = match bt.ty.kind() {
                        ty::Adt(a, _) => {
                            let key = self.note_adt(*a);
                            if a.is_struct() && a.did().is_local() { owner = format!(",{}", esc(&key)); }
                            let v = bt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if a.is_enum() && bt.variant_index.is_none() { format!("{}", idx.as_usize()) }
                            else { a.variant(v).fields[idx].name.to_string() }
                        }
                        _ => format!("{}", idx.as_usize()),
                    };
                    format!("[\"f\",{},{}{}]", idx.as_usize(), esc(&name), owner)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    format!("[\"ci\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(_, v) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(a, _) => { self.note_adt(*a); a.variant(v).name.to_string() }
                        _ => String::new(),
                    };
                    format!("[\"d\",{},{}]", v.as_usize(), esc(&name))
                }
                _ => "[\"?\"]".to_string(),
            };
            els.push(e);
        }
        format!("[{},{}]", p.local.as_usize(), list(els))
    }
    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>, depth: usize) -> String {
        let mut v = vec![
            ("k", esc("fn")),
            ("key", esc(&self.key(d))),
            ("path", esc(&ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)))),
            ("full", esc(&ty::print::with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, args)))),
            ("name", esc(self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())),
            ("gargs", list(args.iter().map(|a| esc(&ty::print::with_no_trimmed_paths!(format!("{a}")))).collect())),
        ];
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            v.push(("trait", esc(&self.tcx.def_path_str(t))));
            if args.len() > 0 { if let Some(st) = args[0].as_type() { v.push(("self", esc(&self.ty(st)))); } }
        }
        if let Some(i) = self.tcx.impl_of_assoc(d) {
            v.push(("impl_self", esc(&self.ty(self.tcx.type_of(i).skip_binder()))));
        }
        let kind = self.tcx.def_kind(d);
        v.push(("ctor", format!("{}", matches!(kind, DefKind::Ctor(..)))));
        let mut target = d;
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let eargs = self.tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, d, eargs) {
                let rd = inst.def_id();
                if rd != d {
                    v.push(("res", esc(&self.key(rd))));
                    v.push(("res_path", esc(&ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(rd)))));
                }
                v.push(("res_kind", esc(&format!("{:?}", inst.def).split('(').next().unwrap().to_string())));
                target = rd;
            }
            self.enqueue(target, depth);
        }
        obj(v)
    }
    fn enqueue(&mut self, d: DefId, depth: usize) {
        if self.seen.contains(&d) { return; }
        if !d.is_local() {
            if depth > 6 { return; }
            let cn = self.tcx.crate_name(d.krate);
            if !matches!(cn.as_str(), "core" | "alloc" | "bytes") { return; }
        }
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { return; }
        if self.tcx.intrinsic(d).is_some() { return; }
        if !self.tcx.is_mir_available(d) { return; }
        self.seen.insert(d);
        self.queue.push_back((d, depth));
    }
    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>, depth: usize) -> String {
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                return self.fnref(env, *d, args, depth);
            }
            ty::Closure(d, _) => {
                self.enqueue(*d, depth);
                return obj(vec![("k", esc("closure")), ("key", esc(&self.key(*d)))]);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return obj(vec![("k", esc("promoted")), ("key", esc(&self.key(u.def))), ("idx", format!("{}", p.as_usize())), ("ty", esc(&self.ty(t)))]);
            }
        }
        let name = match c.const_ {
            Const::Unevaluated(u, _) => Some(self.tcx.def_path_str(u.def)),
            _ => None,
        };
        let mut v = vec![("ty", esc(&self.ty(t)))];
        if let Some(n) = name { v.push(("name", esc(&n))); }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.const_.try_eval_bits(self.tcx, env) {
                let s = if t.is_signed() {
                    let size = self.tcx.layout_of(env.as_query_input(t)).unwrap().size;
                    format!("{}", size.sign_extend(b))
                } else { format!("{b}") };
                v.push(("k", esc("int")));
                v.push(("v", esc(&s)));
                return obj(v);
            }
        }
        if t.is_floating_point() {
            if let Some(s) = c.const_.try_eval_scalar(self.tcx, env) {
                v.push(("k", esc("float")));
                if let Ok(i) = s.try_to_scalar_int() {
                    let b = i.to_bits(i.size());
                    let f = if i.size().bytes() == 8 { f64::from_bits(b as u64) } else { f32::from_bits(b as u32) as f64 };
                    v.push(("v", esc(&format!("{f:?}"))));
                }
                return obj(v);
            }
        }
        // field-less enum / unit-like consts: pretty string
        v.push(("k", esc("const")));
        let s = ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
        v.push(("s", esc(&s)));
        // unit variants of enums given as consts
        if let ty::Adt(a, _) = t.kind() { self.note_adt(*a); v.push(("adt", esc(&self.key(a.did())))); }
        let destr = matches!(t.kind(), ty::Adt(a, _) if a.is_enum());
        let ev = if destr { c.const_.eval(self.tcx, env, c.span).ok() } else { None };
        if let Some(val) = ev {
            if let Some(dc) = self.tcx.try_destructure_mir_constant_for_user_output(val, t) {
                if let Some(vi) = dc.variant {
                    if let ty::Adt(a, _) = t.kind() {
                        v.push(("variant", format!("{}", vi.as_usize())));
                        v.push(("vname", esc(a.variant(vi).name.as_str())));
                        v.push(("nfields", format!("{}", dc.fields.len())));
                    }
                }
            }
        }
        obj(v)
    }
    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>, depth: usize) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.constant(env, c, depth)),
            other => format!("[\"rc\",{}]", esc(&format!("{other:?}"))),
        }
    }
    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>, depth: usize) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(env, body, o, depth)),
            Rvalue::Repeat(o, c) => format!("[\"repeat\",{},{}]", self.operand(env, body, o, depth), esc(&format!("{c}"))),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", esc(match bk { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shared", _ => "fake" }), self.place(body, p)),
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", esc(&format!("raw{k:?}")), self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let from = self.ty(o.ty(&body.local_decls, self.tcx));
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{k:?}")), self.operand(env, body, o, depth), esc(&self.ty(*t)), esc(&from))
            }
            Rvalue::BinaryOp(op, b) => {
                let t = self.ty(b.0.ty(&body.local_decls, self.tcx));
                format!("[\"bin\",{},{},{},{}]", esc(&format!("{op:?}")), self.operand(env, body, &b.0, depth), self.operand(env, body, &b.1, depth), esc(&t))
            }
            Rvalue::UnaryOp(op, o) => {
                let t = self.ty(o.ty(&body.local_decls, self.tcx));
                format!("[\"un\",{},{},{}]", esc(&format!("{op:?}")), self.operand(env, body, o, depth), esc(&t))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let adt = if let ty::Adt(a, _) = t.kind() { self.note_adt(*a) } else { String::new() };
                format!("[\"discr\",{},{}]", self.place(body, p), esc(&adt))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(env, body, o, depth)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => obj(vec![("a", esc("array")), ("ty", esc(&self.ty(*t)))]),
                    AggregateKind::Tuple => obj(vec![("a", esc("tuple"))]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let a = self.tcx.adt_def(*d);
                        let key = self.note_adt(a);
                        let v = a.variant(*vi);
                        obj(vec![("a", esc("adt")), ("adt", esc(&key)), ("variant", format!("{}", vi.as_usize())),
                                 ("vname", esc(v.name.as_str())), ("enum", format!("{}", a.is_enum())),
                                 ("union", format!("{}", active.is_some())),
                                 ("fields", list(v.fields.iter().map(|f| esc(f.name.as_str())).collect()))])
                    }
                    AggregateKind::Closure(d, _) => {
                        self.enqueue(*d, depth);
                        obj(vec![("a", esc("closure")), ("key", esc(&self.key(*d)))])
                    }
                    AggregateKind::RawPtr(..) => obj(vec![("a", esc("rawptr"))]),
                    _ => obj(vec![("a", esc("other"))]),
                };
                format!("[\"agg\",{},{}]", kk, list(os))
            }
            other => format!("[\"other\",{}]", esc(&format!("{other:?}"))),
        }
    }
    fn body_blocks(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, depth: usize, local: bool) -> String {
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let r = self.rvalue(env, body, &b.1, depth);
                        let p = self.place(body, &b.0);
                        if local {
                            st.push(format!("[\"=\",{},{},{}]", p, r, esc(&self.span(s.source_info.span))));
                        } else {
                            st.push(format!("[\"=\",{},{},\"\"]", p, r));
                        }
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(format!("[\"setd\",{},{}]", p, variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(_) => {}
                    _ => {}
                }
            }
            let t = data.terminator();
            let sp = if local { self.span(t.source_info.span) } else { String::new() };
            let mac = if local { self.mac(t.source_info.span) } else { None };
            let mut v: Vec<(&str, String)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => { v.push(("t", esc("goto"))); v.push(("to", format!("{}", target.as_usize()))); }
                TerminatorKind::SwitchInt { discr, targets } => {
                    v.push(("t", esc("switch")));
                    v.push(("on", self.operand(env, body, discr, depth)));
                    v.push(("ty", esc(&self.ty(discr.ty(&body.local_decls, self.tcx)))));
                    v.push(("cases", list(targets.iter().map(|(x, b)| format!("[\"{}\",{}]", x, b.as_usize())).collect())));
                    v.push(("else", format!("{}", targets.otherwise().as_usize())));
                }
                TerminatorKind::Return => v.push(("t", esc("return"))),
                TerminatorKind::Unreachable => v.push(("t", esc("unreachable"))),
                TerminatorKind::Drop { place, target, .. } => {
                    v.push(("t", esc("drop")));
                    v.push(("place", self.place(body, place)));
                    v.push(("to", format!("{}", target.as_usize())));
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    v.push(("t", esc("call")));
                    v.push(("f", self.operand(env, body, func, depth)));
                    v.push(("args", list(args.iter().map(|a| self.operand(env, body, &a.node, depth)).collect())));
                    v.push(("argtys", list(args.iter().map(|a| esc(&self.ty(a.node.ty(&body.local_decls, self.tcx)))).collect())));
                    v.push(("dest", self.place(body, destination)));
                    v.push(("dty", esc(&self.ty(destination.ty(&body.local_decls, self.tcx).ty))));
                    if let Some(t) = target { v.push(("to", format!("{}", t.as_usize()))); }
                    if local { v.push(("cspan", esc(&self.span(*fn_span)))); }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    v.push(("t", esc("assert")));
                    v.push(("cond", self.operand(env, body, cond, depth)));
                    v.push(("expected", format!("{expected}")));
                    let (name, ops): (&str, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![self.operand(env, body, len, depth), self.operand(env, body, index, depth)]),
                        AssertKind::Overflow(op, a, b) => {
                            let mut o = vec![esc(&format!("{op:?}"))];
                            o.push(self.operand(env, body, a, depth));
                            o.push(self.operand(env, body, b, depth));
                            ("overflow", o)
                        }
                        AssertKind::OverflowNeg(a) => ("neg", vec![self.operand(env, body, a, depth)]),
                        AssertKind::DivisionByZero(a) => ("div0", vec![self.operand(env, body, a, depth)]),
                        AssertKind::RemainderByZero(a) => ("rem0", vec![self.operand(env, body, a, depth)]),
                        _ => ("other", vec![]),
                    };
                    v.push(("msg", esc(name)));
                    v.push(("ops", list(ops)));
                    v.push(("to", format!("{}", target.as_usize())));
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    v.push(("t", esc("goto")));
                    v.push(("to", format!("{}", real_target.as_usize())));
                }
                other => { v.push(("t", esc("other"))); v.push(("s", esc(&format!("{other:?}")))); }
            }
            if local {
                v.push(("span", esc(&sp)));
                if let Some(m) = mac { v.push(("mac", esc(&m))); }
            }
            blocks.push(obj(vec![("s", list(st)), ("t", obj(v))]));
        }
        list(blocks)
    }
    fn dump_body(&mut self, d: DefId, depth: usize) {
        let local = d.is_local();
        let tcx = self.tcx;
        let body: &Body<'tcx> = tcx.optimized_mir(d);
        let env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d));
        let b = self.mk_body(env, body, depth, local);
        let mut v = vec![
            ("key", esc(&self.key(d))),
            ("path", esc(&ty::print::with_no_trimmed_paths!(tcx.def_path_str(d)))),
            ("kind", esc(&format!("{:?}", tcx.def_kind(d)))),
            ("name", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())),
            ("local", format!("{local}")),
            ("body", b),
        ];
        if local {
            v.push(("span", esc(&self.span(tcx.def_span(d)))));
            let mac = self.mac(tcx.def_span(d));
            if let Some(m) = mac { v.push(("mac", esc(&m))); }
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                v.push(("vis", esc(&format!("{:?}", tcx.visibility(d)))));
                let ev = tcx.effective_visibilities(());
                v.push(("reachable", format!("{}", ev.is_reachable(d.expect_local()))));
                let sig = tcx.fn_sig(d).skip_binder().skip_binder();
                v.push(("inputs", list(sig.inputs().iter().map(|t| esc(&self.ty(*t))).collect())));
                v.push(("output", esc(&self.ty(sig.output()))));
            }
            if let Some(i) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(i).skip_binder();
                v.push(("impl_self", esc(&self.ty(st))));
                if let Some(a) = st.ty_adt_def() { v.push(("self_adt", esc(&self.key(a.did())))); }
                if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                    v.push(("impl_trait", esc(&ty::print::with_no_trimmed_paths!(format!("{}", tr.skip_binder())))));
                    v.push(("derived", format!("{}", tcx.is_automatically_derived(i))));
                }
            }
            if matches!(tcx.def_kind(d), DefKind::Closure) {
                v.push(("parent", esc(&self.key(tcx.parent(d)))));
            }
            let pm = tcx.promoted_mir(d);
            let mut ps = vec![];
            for p in pm.iter() { ps.push(self.mk_body(env, p, depth, local)); }
            v.push(("promoted", list(ps)));
        } else {
            let pm = tcx.promoted_mir(d);
            let mut ps = vec![];
            for p in pm.iter() { ps.push(self.mk_body(env, p, depth + 1, local)); }
            v.push(("promoted", list(ps)));
        }
        self.bodies.push(obj(v));
    }
    fn mk_body(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, depth: usize, local: bool) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vdi.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), vdi.name.to_string()); }
            }
        }
        let mut ls = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            let mut v = vec![("ty", esc(&self.ty(decl.ty)))];
            if let Some(n) = names.get(&l.as_usize()) { v.push(("name", esc(n))); }
            ls.push(obj(v));
        }
        let bl = self.body_blocks(env, body, depth + if local { 0 } else { 1 }, local);
        obj(vec![("argc", format!("{}", body.arg_count)), ("locals", list(ls)), ("blocks", bl),
                 ("spread", body.spread_arg.map(|l| format!("{}", l.as_usize())).unwrap_or("null".into()))])
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != "foca" {
            return rustc_driver::Compilation::Continue;
        }
        let Ok(out) = std::env::var("VP_MIR_OUT") else { return rustc_driver::Compilation::Continue };
        let mut d = Dump { tcx, queue: VecDeque::new(), seen: HashSet::new(), bodies: vec![], adts: HashMap::new() };
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                d.enqueue(did, 0);
            }
        }
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) { let a = tcx.adt_def(did); d.note_adt(a); }
        }
        while let Some((did, depth)) = d.queue.pop_front() { d.dump_body(did, depth); }
        let adts: Vec<String> = { let mut ks: Vec<_> = d.adts.iter().collect(); ks.sort(); ks.into_iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect() };
        let s = format!("{{\"bodies\":[\n{}\n],\n\"adts\":{{\n{}\n}}}}", d.bodies.join(",\n"), adts.join(",\n"));
        std::fs::write(&out, s).expect("write mir dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
