//! rustc wrapper that dumps the MIR of selected crates (resolved callees, ADT tables, constants)
//! as JSON facts.  It never executes the analysed code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_ast::attr::AttributeExt;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
    want_ext: Vec<String>,
}

fn id_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> Dump<'tcx> {
    fn name(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        js(&with_no_trimmed_paths!(t.to_string()))
    }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", lo.file.name)),
            o => format!("{:?}", o),
        };
        js(&format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }
    fn span_raw(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", lo.file.name)),
            o => format!("{:?}", o),
        };
        js(&format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }
    fn note_adt(&mut self, adt: ty::AdtDef<'tcx>) -> String {
        let id = id_of(self.tcx, adt.did());
        if !self.adts.contains_key(&id) {
            self.adts.insert(id.clone(), String::new());
            let discrs: Vec<String> = if adt.is_enum() {
                adt.discriminants(self.tcx).map(|(_, d)| d.val.to_string()).collect()
            } else {
                adt.variants().iter().map(|_| "0".to_string()).collect()
            };
            let tcx = self.tcx;
            let mut vs = vec![];
            for (i, v) in adt.variants().iter().enumerate() {
                let fs: Vec<String> = v
                    .fields
                    .iter()
                    .map(|f| {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        format!("[{},{}]", js(f.name.as_str()), self.ty(t))
                    })
                    .collect();
                vs.push(format!(
                    "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                    js(v.name.as_str()),
                    js(&discrs[i]),
                    arr(fs)
                ));
            }
            let kind = if adt.is_enum() { "enum" } else if adt.is_union() { "union" } else { "struct" };
            let s = format!(
                "{{\"kind\":{},\"name\":{},\"variants\":{}}}",
                js(kind),
                js(&self.name(adt.did())),
                arr(vs)
            );
            self.adts.insert(id.clone(), s);
        }
        id
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, _) => {
                    let mut nm = String::new();
                    if let ty::Adt(adt, _) = pt.ty.kind() {
                        self.note_adt(*adt);
                        let v = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                        if adt.is_enum() || adt.is_struct() || adt.is_union() {
                            if let Some(f) = adt.variant(v).fields.get(i) {
                                nm = f.name.to_string();
                            }
                        }
                    }
                    format!("[\"f\",{},{}]", i.as_usize(), js(&nm))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => {
                    let mut nm = String::new();
                    if let ty::Adt(adt, _) = pt.ty.kind() {
                        self.note_adt(*adt);
                        nm = adt.variant(v).name.to_string();
                    }
                    format!("[\"v\",{},{}]", v.as_usize(), js(&nm))
                }
                _ => "[\"o\"]".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), arr(out))
    }
    fn place_ty(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> Ty<'tcx> {
        p.ty(&body.local_decls, self.tcx).ty
    }
    fn operand(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(env, &c.const_, c.span)),
            _ => "[\"k\",{\"t\":\"rtcheck\"}]".to_string(),
        }
    }
    fn fndef(&mut self, env: ty::TypingEnv<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let targs = arr(args.iter().map(|a| js(&with_no_trimmed_paths!(a.to_string()))));
        let mut extra = String::new();
        let mut target = None;
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(extra, ",\"trait\":{}", js(&self.name(tr)));
            let _ = write!(extra, ",\"method\":{}", js(tcx.item_name(did).as_str()));
            if args.len() > 0 {
                if let Some(t) = args[0].as_type() {
                    let _ = write!(extra, ",\"self\":{}", self.ty(t));
                }
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if !eargs.has_escaping_bound_vars() {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, did, eargs) {
                    let rd = inst.def_id();
                    let kind = format!("{:?}", inst.def);
                    let kind = kind.split('(').next().unwrap_or("").to_string();
                    let _ = write!(
                        extra,
                        ",\"res\":{},\"resname\":{},\"reskind\":{}",
                        js(&id_of(tcx, rd)),
                        js(&self.name(rd)),
                        js(&kind)
                    );
                    target = Some(rd);
                }
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(did) {
            // tuple struct / variant constructor used as a function
            let parent = tcx.parent(did);
            let (adt_did, vname) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), tcx.item_name(parent).to_string()),
                _ => (parent, tcx.item_name(parent).to_string()),
            };
            let adt = tcx.adt_def(adt_did);
            let id = self.note_adt(adt);
            let vi = adt.variants().iter().position(|v| v.name.as_str() == vname).unwrap_or(0);
            let _ = write!(extra, ",\"ctor\":[{},{},{}]", js(&id), vi, js(&vname));
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(did).skip_binder().safety().is_safe() {
            extra.push_str(",\"unsafe\":true");
        }
        let t = target.unwrap_or(did);
        self.enqueue(t);
        if t != did {
            self.enqueue(did);
        }
        let hdr = format!(
            "{{\"t\":\"fn\",\"id\":{},\"name\":{},\"args\":{}{}}}",
            js(&id_of(tcx, did)),
            js(&self.name(did)),
            targs,
            extra
        );
        hdr
    }
    fn enqueue(&mut self, d: DefId) {
        if d.is_local() || self.seen.contains(&d) {
            return;
        }
        let id = id_of(self.tcx, d);
        if self.want_ext.iter().any(|p| id.starts_with(p.as_str())) {
            self.seen.insert(d);
            self.queue.push_back(d);
        }
    }
    fn constant(&mut self, env: ty::TypingEnv<'tcx>, c: &Const<'tcx>, sp: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(did, args) = t.kind() {
            let args = args.skip_binder();
            return self.fndef(env, *did, args);
        }
        if let ty::Closure(did, _) = t.kind() {
            return format!("{{\"t\":\"closure\",\"id\":{}}}", js(&id_of(tcx, *did)));
        }
        let mut named = String::new();
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"t\":\"promoted\",\"of\":{},\"n\":{},\"ty\":{}}}",
                    js(&id_of(tcx, u.def)),
                    p.as_usize(),
                    self.ty(t)
                );
            }
            named = format!(",\"named\":{}", js(&self.name(u.def)));
        }
        let val = if c.has_non_region_param() { None } else { c.eval(tcx, env, sp).ok() };
        let tys = self.ty(t);
        if let Some(v) = val {
            match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                    if let Some(s) = v.try_to_scalar_int() {
                        let size = s.size();
                        let bits = s.to_bits(size);
                        let txt = match t.kind() {
                            ty::Int(_) => size.sign_extend(bits).to_string(),
                            _ => bits.to_string(),
                        };
                        return format!("{{\"t\":\"int\",\"v\":{},\"ty\":{}{}}}", txt, tys, named);
                    }
                }
                ty::Ref(_, inner, _) if inner.is_str() => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!(
                            "{{\"t\":\"str\",\"v\":{}{}}}",
                            js(&String::from_utf8_lossy(b)),
                            named
                        );
                    }
                }
                ty::Tuple(l) if l.is_empty() => return "{\"t\":\"unit\"}".to_string(),
                _ => {}
            }
            if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                    return format!("{{\"t\":\"static\",\"id\":{},\"ty\":{}}}", js(&id_of(tcx, d)), tys);
                }
            }
            if matches!(v, ConstValue::ZeroSized) {
                if let ty::Adt(a, _) = t.kind() {
                    let id = self.note_adt(*a);
                    return format!("{{\"t\":\"zst\",\"adt\":{},\"ty\":{}{}}}", js(&id), tys, named);
                }
                return format!("{{\"t\":\"zst\",\"ty\":{}{}}}", tys, named);
            }
            // fieldless enum constant
            if let ty::Adt(a, _) = t.kind() {
                let id = self.note_adt(*a);
                if a.is_enum() && !t.has_param() {
                    if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                        if let Some(s) = v.try_to_scalar_int() {
                            if let rustc_abi::Variants::Multiple { tag_encoding, .. } = &l.variants {
                                if matches!(tag_encoding, rustc_abi::TagEncoding::Direct) {
                                    let b = s.to_bits(s.size());
                                    for (vi, d) in a.discriminants(tcx) {
                                        let m = rustc_abi::Size::from_bits(s.size().bits()).truncate(d.val);
                                        if m == b {
                                            return format!(
                                                "{{\"t\":\"variant\",\"adt\":{},\"v\":{},\"vname\":{}}}",
                                                js(&id),
                                                vi.as_usize(),
                                                js(a.variant(vi).name.as_str())
                                            );
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        let txt = with_no_trimmed_paths!(format!("{}", c));
        format!("{{\"t\":\"other\",\"ty\":{},\"s\":{}{}}}", tys, js(&txt), named)
    }
    fn rvalue(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(body, env, o),
                js(&with_no_trimmed_paths!(n.to_string()))
            ),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", js(&ks), self.operand(body, env, o), self.ty(*t))
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{},{}]",
                js(&format!("{:?}", op)),
                self.operand(body, env, &ab.0),
                self.operand(body, env, &ab.1),
                self.ty(ab.0.ty(&body.local_decls, self.tcx))
            ),
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", js(&format!("{:?}", op)), self.operand(body, env, o))
            }
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(body, p);
                let id = if let ty::Adt(a, _) = t.kind() { self.note_adt(*a) } else { String::new() };
                format!("[\"discr\",{},{}]", self.place(body, p), js(&id))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops_s = arr(ops.iter().map(|o| self.operand(body, env, o)).collect::<Vec<_>>());
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",{}]", ops_s),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{}]", ops_s),
                    AggregateKind::Adt(did, v, ..) => {
                        let adt = self.tcx.adt_def(*did);
                        let id = self.note_adt(adt);
                        format!(
                            "[\"agg\",\"adt\",{},{},{},{}]",
                            ops_s,
                            js(&id),
                            v.as_usize(),
                            js(adt.variant(*v).name.as_str())
                        )
                    }
                    AggregateKind::Closure(did, _) => {
                        format!("[\"agg\",\"closure\",{},{}]", ops_s, js(&id_of(self.tcx, *did)))
                    }
                    _ => format!("[\"agg\",\"other\",{}]", ops_s),
                }
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&id_of(self.tcx, *d))),
            _ => format!("[\"other\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, id: String, name: String, def: DefId, body: &Body<'tcx>, kind: &str) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, def);
        let locals = arr(body.local_decls.iter().map(|l| self.ty(l.ty)).collect::<Vec<_>>());
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upvars: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(i, _) = e {
                            upvars.insert(i.as_usize(), v.name.to_string());
                            break;
                        }
                    }
                }
            }
        }
        let names = format!(
            "{{{}}}",
            names.iter().map(|(k, v)| format!("\"{}\":{}", k, js(v))).collect::<Vec<_>>().join(",")
        );
        let upvars = format!(
            "{{{}}}",
            upvars.iter().map(|(k, v)| format!("\"{}\":{}", k, js(v))).collect::<Vec<_>>().join(",")
        );
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        st.push(format!(
                            "[\"=\",{},{},{}]",
                            self.place(body, p),
                            self.rvalue(body, env, r),
                            self.span(s.source_info.span)
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setdiscr\",{},{}]", self.place(body, place), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => st.push(format!("[\"intr\",{}]", js(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vals = arr(targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())));
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        self.operand(body, env, discr),
                        vals,
                        targets.otherwise().as_usize(),
                        self.ty(discr.ty(&body.local_decls, tcx)),
                        sp
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = self.place_ty(body, place);
                    format!("[\"drop\",{},{},{}]", self.place(body, place), target.as_usize(), self.ty(t))
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(body, env, func);
                    let a = arr(args.iter().map(|a| self.operand(body, env, &a.node)).collect::<Vec<_>>());
                    let aty = arr(args.iter().map(|a| self.ty(a.node.ty(&body.local_decls, tcx))).collect::<Vec<_>>());
                    let d = self.place(body, destination);
                    let dty = self.place_ty(body, destination);
                    format!(
                        "[\"call\",{},{},{},{},{},{},{},{}]",
                        f,
                        a,
                        d,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        aty,
                        self.ty(dty),
                        self.span(*fn_span),
                        self.span_raw(*fn_span)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").to_string();
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(body, env, cond),
                        expected,
                        target.as_usize(),
                        js(&m),
                        sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"cleanup\":{}}}",
                arr(st),
                ts,
                bb.is_cleanup
            ));
        }
        let vis = if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            format!("{:?}", tcx.visibility(def))
        } else {
            String::new()
        };
        let mut sigs = String::new();
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            let s = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
            sigs = with_no_trimmed_paths!(s.to_string());
        }
        let mut implinfo = String::new();
        if let DefKind::AssocFn = tcx.def_kind(def) {
            if let Some(imp) = tcx.impl_of_assoc(def) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let _ = write!(implinfo, ",\"impl_self\":{}", self.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let _ = write!(
                        implinfo,
                        ",\"impl_trait\":{}",
                        js(&self.name(tr.instantiate_identity().skip_norm_wip().def_id))
                    );
                }
                let _ = write!(implinfo, ",\"method\":{}", js(tcx.item_name(def).as_str()));
            }
        }
        let promoted = if kind == "fn" || kind == "closure" {
            let ps = tcx.promoted_mir(def);
            arr(ps
                .iter()
                .enumerate()
                .map(|(i, b)| self.body(format!("{}#p{}", id, i), String::new(), def, b, "promoted"))
                .collect::<Vec<_>>())
        } else {
            "[]".into()
        };
        format!(
            "{{\"id\":{},\"name\":{},\"kind\":{},\"argc\":{},\"locals\":{},\"names\":{},\"upvars\":{},\"blocks\":{},\"promoted\":{},\"span\":{},\"vis\":{},\"sig\":{}{}}}",
            js(&id),
            js(&name),
            js(kind),
            body.arg_count,
            locals,
            names,
            upvars,
            arr(blocks),
            promoted,
            self.span(body.span),
            js(&vis),
            js(&sigs),
            implinfo
        )
    }
}

struct Cb {
    out: String,
    ext: Vec<String>,
    feats: String,
}

impl Callbacks for Cb {
    #[allow(deprecated)]
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut d = Dump {
            tcx,
            adts: BTreeMap::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
            want_ext: self.ext.clone(),
        };
        let mut bodies = vec![];
        let mut statics = BTreeSet::new();
        let mut unsafes = BTreeSet::new();
        for ld in tcx.mir_keys(()).iter() {
            let def = ld.to_def_id();
            let k = match tcx.def_kind(def) {
                DefKind::Fn | DefKind::AssocFn => "fn",
                DefKind::Closure => "closure",
                DefKind::Static { .. } => {
                    statics.insert(id_of(tcx, def));
                    continue;
                }
                _ => continue,
            };
            if tcx.is_constructor(def) {
                continue;
            }
            let b = tcx.optimized_mir(def);
            let s = d.body(id_of(tcx, def), d.name(def), def, b, k);
            bodies.push(s);
            if k == "fn" {
                let sig = tcx.fn_sig(def).skip_binder();
                if !sig.safety().is_safe() {
                    unsafes.insert(id_of(tcx, def));
                }
            }
        }
        let mut ext = vec![];
        while let Some(def) = d.queue.pop_front() {
            if ext.len() > 4000 {
                break;
            }
            let k = match tcx.def_kind(def) {
                DefKind::Fn | DefKind::AssocFn => "fn",
                DefKind::Closure => "closure",
                _ => continue,
            };
            if tcx.is_constructor(def) || tcx.is_intrinsic(def, rustc_span::sym::abort) {
                continue;
            }
            if !tcx.is_mir_available(def) || tcx.intrinsic(def).is_some() {
                continue;
            }
            let b = tcx.optimized_mir(def);
            let s = d.body(id_of(tcx, def), d.name(def), def, b, k);
            ext.push(s);
        }
        // items for signature / visibility / effects inventories
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let def = id.to_def_id();
            let kind = tcx.def_kind(def);
            let ks = format!("{:?}", kind);
            let ks = ks.split(|c| c == ' ' || c == '(' || c == '{').next().unwrap_or("").to_string();
            if matches!(
                kind,
                DefKind::Fn | DefKind::AssocFn | DefKind::Struct | DefKind::Enum | DefKind::Static { .. } | DefKind::Const { .. } | DefKind::Mod | DefKind::TyAlias | DefKind::Trait | DefKind::Impl { .. }
            ) {
                let vis = if matches!(kind, DefKind::Impl { .. }) {
                    String::new()
                } else {
                    format!("{:?}", tcx.visibility(def))
                };
                let docs: String = tcx
                    .get_all_attrs(def)
                    .iter()
                    .filter_map(|a| a.doc_str().map(|s| s.to_string()))
                    .collect::<Vec<_>>()
                    .join("\n");
                let mut more = String::new();
                if matches!(kind, DefKind::Static { .. }) {
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let env = ty::TypingEnv::post_analysis(tcx, def);
                    more = format!(
                        ",\"ty\":{},\"mut\":{},\"freeze\":{}",
                        js(&format!("{}", t)),
                        tcx.is_mutable_static(def),
                        t.is_freeze(tcx, env)
                    );
                }
                items.push(format!(
                    "{{\"id\":{},\"kind\":{},\"vis\":{},\"doc\":{}{}}}",
                    js(&id_of(tcx, def)),
                    js(&ks),
                    js(&vis),
                    js(&docs),
                    more
                ));
            }
        }
        let adts = format!(
            "{{{}}}",
            d.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",\n")
        );
        let s = format!(
            "{{\"crate\":{},\"bodies\":[\n{}\n],\"ext\":[\n{}\n],\"adts\":{},\"statics\":{},\"unsafe_fns\":{},\"crates\":{},\"items\":[\n{}\n]}}\n",
            js(&krate),
            bodies.join(",\n"),
            ext.join(",\n"),
            adts,
            arr(statics.iter().map(|s| js(s))),
            arr(unsafes.iter().map(|s| js(s))),
            arr(tcx.crates(()).iter().map(|c| js(tcx.crate_name(*c).as_str()))),
            items.join(",\n")
        );
        std::fs::write(format!("{}/{}{}.json", self.out, krate, self.feats), s).expect("write facts");
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let crates = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let ext: Vec<String> = std::env::var("MIRFACTS_EXT")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    // one file per feature set: a crate may be built twice (for the host and for the target)
    let mut feats: Vec<String> = args
        .iter()
        .filter_map(|a| a.strip_prefix("feature=\"").and_then(|a| a.strip_suffix('"')))
        .filter(|f| *f != "default")
        .map(|f| format!("+{}", f))
        .collect();
    feats.sort();
    let feats = feats.concat();
    let dump = !out.is_empty() && crates.split(',').any(|c| c == name);
    // crates that are only expanded
    if std::env::var("MIRFACTS_EXPAND").unwrap_or_default().split(',').any(|c| !c.is_empty() && c == name) {
        args.push("-Zno-analysis".into());
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        if dump {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zalways-encode-mir=yes".into());
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out, ext, feats });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
