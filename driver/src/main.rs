//! rustc driver which writes, for every crate it compiles, a JSON description of every MIR body,
//! ADT and impl of that crate ("facts").  It is used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, print::with_no_trimmed_paths, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct Cb;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Ctx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            format!("{}::{}", krate, p)
        } else {
            p
        }
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a
            .iter()
            .filter_map(|g| {
                if let Some(t) = g.as_type() {
                    Some(self.ty(t).to_string())
                } else if let Some(c) = g.as_const() {
                    Some(js(&format!("{:?}", c)))
                } else {
                    None
                }
            })
            .collect();
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, idx);
        let s = with_no_trimmed_paths!(t.to_string());
        let body = match *t.kind() {
            ty::Adt(d, a) => format!(
                "\"k\":\"adt\",\"d\":{},\"a\":{}",
                js(&self.path(d.did())),
                self.args(a)
            ),
            ty::Ref(_, i, m) => format!(
                "\"k\":\"ref\",\"m\":{},\"a\":[{}]",
                m.is_mut(),
                self.ty(i)
            ),
            ty::RawPtr(i, m) => {
                format!("\"k\":\"ptr\",\"m\":{},\"a\":[{}]", m.is_mut(), self.ty(i))
            }
            ty::Slice(i) => format!("\"k\":\"slice\",\"a\":[{}]", self.ty(i)),
            ty::Array(i, n) => {
                let a = self.ty(i);
                format!("\"k\":\"array\",\"a\":[{}],\"n\":{}", a, js(&format!("{:?}", n)))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", arr(v))
            }
            ty::FnDef(d, a) => format!(
                "\"k\":\"fndef\",\"d\":{},\"a\":{}",
                js(&self.path(d)),
                self.args(a.skip_binder())
            ),
            ty::Closure(d, a) => {
                let p = js(&self.path(d));
                let ups: Vec<String> = a
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x).to_string())
                    .collect();
                format!("\"k\":\"closure\",\"d\":{},\"a\":{}", p, arr(ups))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", js(p.name.as_str())),
            ty::Alias(..) => format!("\"k\":\"alias\""),
            ty::Dynamic(..) => format!("\"k\":\"dyn\""),
            ty::FnPtr(..) => format!("\"k\":\"fnptr\""),
            _ => format!("\"k\":\"prim\""),
        };
        self.types[idx] = format!("{{\"s\":{},{}}}", js(&s), body);
        idx
    }
    fn line(&self, s: Span) -> String {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        lo.line.to_string()
    }
    fn file(&self, s: Span) -> String {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("{}", lo.file.name.prefer_local_unconditionally())
    }
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut out = vec![];
        for (base, e) in p.iter_projections() {
            out.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, fty) => {
                    let pt = base.ty(body, self.tcx);
                    let mut name = f.as_usize().to_string();
                    let mut owner = String::new();
                    if let ty::Adt(ad, _) = pt.ty.kind() {
                        owner = self.path(ad.did());
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if let Some(v) = ad.variants().get(vi) {
                            if let Some(fd) = v.fields.get(f) {
                                name = fd.name.to_string();
                            }
                        }
                    }
                    let t = self.ty(fty);
                    format!("[\"f\",{},{},{},{}]", f.as_usize(), js(&name), js(&owner), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"dc\",{},{}]",
                    v.as_usize(),
                    js(n.map(|x| x.to_string()).unwrap_or_default().as_str())
                ),
                _ => "[\"other\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(out))
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut extra = String::new();
        match *t.kind() {
            ty::FnDef(d, a0) => {
                let a = a0.skip_binder();
                extra += &self.fnref(d, a, env);
            }
            _ => {
                match c.const_ {
                    Const::Unevaluated(u, _) => {
                        let p = self.path(u.def);
                        let ar = self.args(u.args);
                        extra += &format!(",\"def\":{},\"dargs\":{}", js(&p), ar);
                        if let Some(pr) = u.promoted {
                            extra += &format!(",\"promoted\":{}", pr.as_usize());
                        }
                    }
                    _ => {}
                }
                let generic = c.const_.has_non_region_param();
                if !generic {
                    if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
                        match v {
                            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                                let sz = i.size();
                                extra += &format!(",\"v\":\"{}\"", i.to_bits(sz));
                            }
                            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                                let id = p.provenance.alloc_id();
                                if let Some(mir::interpret::GlobalAlloc::Static(d)) =
                                    self.tcx.try_get_global_alloc(id)
                                {
                                    let p = self.path(d);
                                    extra += &format!(",\"static\":{}", js(&p));
                                }
                            }
                            ConstValue::Slice { .. } => {
                                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                                    extra += &format!(
                                        ",\"str\":{}",
                                        js(&String::from_utf8_lossy(b))
                                    );
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        let s = with_no_trimmed_paths!(format!("{}", c.const_));
        let s = if s.len() > 200 { s.chars().take(200).collect() } else { s };
        format!("[\"k\",{{\"t\":{},\"s\":{}{}}}]", ti, js(&s), extra)
    }
    fn fnref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!(",\"fn\":{},\"fargs\":{}", js(&self.path(d)), self.args(a));
        if tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Struct, rustc_hir::def::CtorKind::Fn)
            || tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Variant, rustc_hir::def::CtorKind::Fn)
        {
            o += ",\"ctor\":true";
            return o;
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o += &format!(",\"trait\":{}", js(&self.path(tr)));
        }
        if !d.is_local() && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let attrs = tcx.codegen_fn_attrs(d);
            let tf: Vec<String> =
                attrs.target_features.iter().map(|f| js(f.name.as_str())).collect();
            if !tf.is_empty() {
                o += &format!(",\"tf\":{}", arr(tf));
            }
        }
        let er = tcx.erase_and_anonymize_regions(a);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ty::Instance::try_resolve(tcx, env, d, er)
        }));
        if let Ok(Ok(Some(inst))) = r {
            let rd = inst.def_id();
            let ra = inst.args;
            let virt = matches!(inst.def, ty::InstanceKind::Virtual(..));
            o += &format!(
                ",\"res\":{},\"rargs\":{}{}",
                js(&self.path(rd)),
                self.args(ra),
                if virt { ",\"virtual\":true" } else { "" }
            );
        }
        o
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, *p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, *p)),
            Operand::Constant(c) => self.konst(c, env),
            #[allow(unreachable_patterns)]
            x => format!("[\"o\",{}]", js(&format!("{:?}", x))),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, o, env)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(body, o, env),
                js(&format!("{:?}", n))
            ),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(body, *p)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "[\"raw\",{},{}]",
                js(&format!("{:?}", k)),
                self.place(body, *p)
            ),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("PointerCoercion({:?})", c),
                    k => format!("{:?}", k),
                };
                let op = self.operand(body, o, env);
                let from = o.ty(&body.local_decls, self.tcx);
                format!("[\"cast\",{},{},{},{}]", js(&ks), op, self.ty(*t), self.ty(from))
            }
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{:?}", op)),
                self.operand(body, &b.0, env),
                self.operand(body, &b.1, env)
            ),
            Rvalue::UnaryOp(op, a) => format!(
                "[\"un\",{},{}]",
                js(&format!("{:?}", op)),
                self.operand(body, a, env)
            ),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, *p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                let k = match **k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let ad = self.tcx.adt_def(d);
                        let var = ad.variant(v);
                        let names: Vec<String> =
                            var.fields.iter().map(|x| js(x.name.as_str())).collect();
                        format!(
                            "{{\"k\":\"adt\",\"d\":{},\"v\":{},\"vn\":{},\"enum\":{},\"fields\":{},\"a\":{}{}}}",
                            js(&self.path(d)),
                            v.as_usize(),
                            js(var.name.as_str()),
                            ad.is_enum(),
                            arr(names),
                            self.args(a),
                            f.map(|x| format!(",\"active\":{}", x.as_usize())).unwrap_or_default()
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"closure\",\"d\":{}}}", js(&self.path(d)))
                    }
                    AggregateKind::RawPtr(t, m) => {
                        format!("{{\"k\":\"rawptr\",\"t\":{},\"m\":{}}}", self.ty(t), m.is_mut())
                    }
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},{}]", k, arr(ops))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, *p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", m.is_mut(), self.place(body, *p))
            }
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, o, env)),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let locals: Vec<String> =
            body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", js(v.name.as_str()), self.place(body, p)));
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let pl = self.place(body, *p);
                        let rv = self.rvalue(body, r, env);
                        st.push(format!("[{},{},{}]", pl, rv, self.line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "[{},[\"setdiscr\",{}],{}]",
                            self.place(body, **place),
                            variant_index.as_usize(),
                            self.line(s.source_info.span)
                        ));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let ln = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize()))
                        .collect();
                    let dt = discr.ty(body, self.tcx);
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(body, discr, env),
                        arr(v),
                        targets.otherwise().as_usize(),
                        self.ty(dt)
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = place.ty(body, self.tcx).ty;
                    format!(
                        "[\"drop\",{},{},{}]",
                        self.place(body, *place),
                        target.as_usize(),
                        self.ty(dt)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func, env);
                    let a: Vec<String> =
                        args.iter().map(|x| self.operand(body, &x.node, env)).collect();
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        arr(a),
                        self.place(body, *destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m: String = m.chars().take(60).collect();
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(body, cond, env),
                        expected,
                        js(&m),
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
                k => format!("[\"other\",{}]", js(&format!("{:?}", k).chars().take(80).collect::<String>())),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"l\":{}{}}}",
                arr(st),
                ts,
                ln,
                if b.is_cleanup { ",\"cleanup\":true" } else { "" }
            ));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}",
            body.arg_count,
            arr(locals),
            arr(names),
            arr(blocks)
        )
    }
    fn owner(&mut self, ld: LocalDefId) -> Option<Vec<String>> {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let (is_fn, const_ctx) = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => (true, false),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => (false, true),
            _ => return None,
        };
        let env = ty::TypingEnv::post_analysis(tcx, d);
        let b: &Body<'tcx> = if const_ctx {
            tcx.mir_for_ctfe(d)
        } else {
            if tcx.is_coroutine(d) {
                return None;
            }
            tcx.optimized_mir(d)
        };
        let mut meta = format!(
            "\"id\":{},\"hash\":{},\"kind\":{},\"file\":{},\"line\":{}",
            js(&self.path(d)),
            js(&format!("{:?}", tcx.def_path_hash(d))),
            js(&format!("{:?}", kind)),
            js(&self.file(tcx.def_span(d))),
            self.line(tcx.def_span(d))
        );
        let end = tcx.sess.source_map().lookup_char_pos(b.span.source_callsite().hi()).line;
        meta += &format!(",\"endline\":{}", end);
        let mut item = d;
        while tcx.def_kind(item) == DefKind::Closure {
            item = tcx.parent(item);
        }
        if item != d {
            meta += &format!(",\"closure_of\":{}", js(&self.path(tcx.parent(d))));
            meta += &format!(",\"item\":{}", js(&self.path(item)));
        }
        if is_fn && item == d {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            meta += &format!(
                ",\"unsafe\":{},\"abi\":{}",
                !sig.safety().is_safe(),
                js(&format!("{:?}", sig.abi()))
            );
            let ins: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
            meta += &format!(",\"ins\":{},\"out\":{}", arr(ins), self.ty(sig.output()));
            meta += &format!(",\"vis\":{}", js(&format!("{:?}", tcx.visibility(d))));
        }
        if is_fn {
            let attrs = tcx.codegen_fn_attrs(d);
            let tf: Vec<String> =
                attrs.target_features.iter().map(|f| js(f.name.as_str())).collect();
            if !tf.is_empty() {
                meta += &format!(",\"tf\":{}", arr(tf));
            }
            if attrs.flags.contains(
                rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE,
            ) {
                meta += ",\"no_mangle\":true";
            }
        }
        let gens = tcx.generics_of(item);
        let mut gn = vec![];
        let mut g = Some(gens);
        while let Some(x) = g {
            let mut here: Vec<String> = x
                .own_params
                .iter()
                .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                .map(|p| js(p.name.as_str()))
                .collect();
            here.extend(gn);
            gn = here;
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        meta += &format!(",\"gen\":{}", arr(gn));
        if let Some(imp) = tcx.impl_of_assoc(item) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            meta += &format!(",\"self\":{}", self.ty(st));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                meta += &format!(
                    ",\"trait\":{},\"targs\":{}",
                    js(&self.path(tr.def_id)),
                    self.args(tr.args)
                );
            }
        } else if let Some(tr) = tcx.trait_of_assoc(item) {
            meta += &format!(",\"trait_default\":{}", js(&self.path(tr)));
        }
        let mut out = vec![format!("{{{},{}}}", meta, self.body(b, env))];
        if is_fn {
            for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                let m = format!(
                    "\"id\":{},\"kind\":\"Promoted\",\"file\":{},\"line\":{}",
                    js(&format!("{}#promoted{}", self.path(d), i.as_usize())),
                    js(&self.file(tcx.def_span(d))),
                    self.line(tcx.def_span(d))
                );
                out.push(format!("{{{},{}}}", m, self.body(p, env)));
            }
        }
        Some(out)
    }
    fn adt(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let ad = tcx.adt_def(d);
        let mut vs = vec![];
        let discrs: Vec<String> = if ad.is_enum() {
            ad.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect()
        } else {
            vec![]
        };
        for (i, v) in ad.variants().iter().enumerate() {
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    format!(
                        "[{},{},{}]",
                        js(f.name.as_str()),
                        self.ty(t),
                        js(&format!("{:?}", f.vis))
                    )
                })
                .collect();
            vs.push(format!(
                "{{\"n\":{},\"discr\":{},\"f\":{}}}",
                js(v.name.as_str()),
                discrs.get(i).map(|x| js(x)).unwrap_or("null".into()),
                arr(fs)
            ));
        }
        format!(
            "{{\"id\":{},\"kind\":{},\"repr\":{},\"file\":{},\"line\":{},\"vis\":{},\"variants\":{}}}",
            js(&self.path(d)),
            js(if ad.is_enum() { "enum" } else if ad.is_union() { "union" } else { "struct" }),
            js(&format!("{:?}", ad.repr())),
            js(&self.file(tcx.def_span(d))),
            self.line(tcx.def_span(d)),
            js(&format!("{:?}", tcx.visibility(d))),
            arr(vs)
        )
    }
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.cg.overflow_checks = Some(false);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(dir) = std::env::var("MIRFACTS_OUT") else { return Compilation::Continue };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let sid = tcx.stable_crate_id(rustc_hir::def_id::LOCAL_CRATE);
        let mut cx = Ctx { tcx, types: vec![], tymap: HashMap::new() };
        let mut bodies: Vec<String> = vec![];
        let mut failed: Vec<String> = vec![];
        for ld in tcx.hir_body_owners() {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cx.owner(ld)));
            match r {
                Ok(Some(v)) => bodies.extend(v),
                Ok(None) => {}
                Err(_) => failed.push(js(&cx.path(ld.to_def_id()))),
            }
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let mut foreign = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(cx.adt(d)),
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut s = format!("\"self\":{}", cx.ty(st));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        s += &format!(
                            ",\"trait\":{},\"targs\":{}",
                            js(&cx.path(tr.def_id)),
                            cx.args(tr.args)
                        );
                    }
                    let items: Vec<String> = tcx
                        .associated_item_def_ids(d)
                        .iter()
                        .map(|x| js(&cx.path(*x)))
                        .collect();
                    s += &format!(
                        ",\"items\":{},\"file\":{},\"line\":{}",
                        arr(items),
                        js(&cx.file(tcx.def_span(d))),
                        cx.line(tcx.def_span(d))
                    );
                    impls.push(format!("{{{}}}", s));
                }
                DefKind::Trait => {
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|x| {
                            format!(
                                "[{},{}]",
                                js(&cx.path(x.def_id)),
                                x.defaultness(tcx).has_value()
                            )
                        })
                        .collect();
                    traits.push(format!("{{\"id\":{},\"items\":{}}}", js(&cx.path(d)), arr(items)));
                }
                DefKind::Fn if tcx.is_foreign_item(d) => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    let ins: Vec<String> =
                        sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
                    foreign.push(format!(
                        "{{\"id\":{},\"ins\":{},\"out\":{},\"file\":{},\"line\":{}}}",
                        js(&cx.path(d)),
                        arr(ins),
                        cx.ty(sig.output()),
                        js(&cx.file(tcx.def_span(d))),
                        cx.line(tcx.def_span(d))
                    ));
                }
                _ => {}
            }
        }
        let types = arr(cx.types.clone());
        let out = format!(
            "{{\"crate\":{},\"sid\":{},\"types\":{},\"adts\":{},\"impls\":{},\"traits\":{},\"foreign\":{},\"failed\":{},\"bodies\":[{}]}}",
            js(&krate),
            js(&format!("{:?}", sid)),
            types,
            arr(adts),
            arr(impls),
            arr(traits),
            arr(foreign),
            arr(failed),
            bodies.join(",\n")
        );
        let p = format!("{}/{}-{:?}.json", dir, krate, sid.as_u64());
        std::fs::write(&p, out).expect("cannot write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper we are called `mirfacts /path/to/rustc args...`.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(0);
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
