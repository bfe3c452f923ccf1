// rustc driver used as RUSTC_WORKSPACE_WRAPPER: for the crate named in BQSA_CRATE it dumps the
// type-checked program (MIR as built, resolved callees, constants) as JSON to BQSA_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct Dump;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    owner: LocalDefId,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.push(String::new());
        self.tymap.insert(t, i);
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(_) | ty::Uint(_) => "\"k\":\"int\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(def, args) => {
                let mut a = vec![];
                for g in args.iter() {
                    if let Some(t) = g.as_type() {
                        a.push(self.ty(t).to_string());
                    }
                }
                let nvar = def.variants().len();
                let vars: Vec<String> =
                    def.variants().iter().map(|v| js(v.name.as_str())).collect();
                let discrs: Vec<String> = if def.is_enum() {
                    def.discriminants(self.tcx).map(|(_, d)| format!("\"{}\"", d.val)).collect()
                } else {
                    vec![]
                };
                let fields: Vec<String> = if def.is_struct() {
                    def.non_enum_variant().fields.iter().map(|f| js(f.name.as_str())).collect()
                } else {
                    vec![]
                };
                let show = def.is_struct() || nvar <= 400;
                format!(
                    "\"k\":\"adt\",\"def\":{},\"args\":[{}],\"enum\":{},\"local\":{},\"vars\":[{}],\"discrs\":[{}],\"fields\":[{}]",
                    js(&self.path(def.did())),
                    a.join(","),
                    def.is_enum(),
                    def.did().is_local(),
                    if show { vars.join(",") } else { String::new() },
                    discrs.join(","),
                    fields.join(",")
                )
            }
            ty::Ref(_, inner, m) => {
                let x = self.ty(*inner);
                format!("\"k\":\"ref\",\"mut\":{},\"args\":[{}]", m.is_mut(), x)
            }
            ty::RawPtr(inner, m) => {
                let x = self.ty(*inner);
                format!("\"k\":\"ptr\",\"mut\":{},\"args\":[{}]", m.is_mut(), x)
            }
            ty::Tuple(ts) => {
                let mut a = vec![];
                for t in ts.iter() {
                    a.push(self.ty(t).to_string());
                }
                format!("\"k\":\"tuple\",\"args\":[{}]", a.join(","))
            }
            ty::Array(e, n) => {
                let x = self.ty(*e);
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"args\":[{}],\"n\":{}", x, n)
            }
            ty::Slice(e) => {
                let x = self.ty(*e);
                format!("\"k\":\"slice\",\"args\":[{}]", x)
            }
            ty::Closure(d, _) => format!("\"k\":\"closure\",\"def\":{}", js(&self.path(*d))),
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"def\":{}", js(&self.path(*d))),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.tys[i] = format!("{{\"s\":{},{}}}", js(&s), body);
        i
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.to_string_lossy().to_string(),
                None => String::from("?"),
            },
            _ => String::from("?"),
        };
        let name = name.rsplit("/src/").next().map(|x| format!("src/{}", x.trim_start_matches("src/"))).unwrap_or(name);
        format!("{}:{}:{}", name, lo.line, lo.col.0 + 1)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("{{\"l\":{}", p.local.as_usize());
        if !p.projection.is_empty() {
            o.push_str(",\"p\":[");
            let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
            for (i, e) in p.projection.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                match e {
                    ProjectionElem::Deref => o.push_str("\"*\""),
                    ProjectionElem::Field(f, t) => {
                        let name = match pty.ty.kind() {
                            ty::Adt(def, _) => {
                                let v = if def.is_enum() {
                                    pty.variant_index.map(|v| &def.variants()[v])
                                } else {
                                    Some(def.non_enum_variant())
                                };
                                v.and_then(|v| v.fields.get(f)).map(|f| f.name.to_string()).unwrap_or_default()
                            }
                            _ => String::new(),
                        };
                        let t = self.ty(t);
                        let _ = write!(o, "{{\"f\":{},\"n\":{},\"t\":{}}}", f.as_usize(), js(&name), t);
                    }
                    ProjectionElem::Index(l) => {
                        let _ = write!(o, "{{\"i\":{}}}", l.as_usize());
                    }
                    ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                        let _ = write!(o, "{{\"ci\":{},\"ml\":{},\"fe\":{}}}", offset, min_length, from_end);
                    }
                    ProjectionElem::Subslice { from, to, from_end } => {
                        let _ = write!(o, "{{\"ss\":{},\"to\":{},\"fe\":{}}}", from, to, from_end);
                    }
                    ProjectionElem::Downcast(_, v) => {
                        let _ = write!(o, "{{\"v\":{}}}", v.as_usize());
                    }
                    _ => o.push_str("\"?\""),
                }
                pty = pty.projection_ty(self.tcx, e);
            }
            o.push(']');
        }
        o.push('}');
        o
    }
    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut a = vec![];
        for g in args.iter() {
            if let Some(t) = g.as_type() {
                a.push(self.ty(t).to_string());
            }
        }
        let eargs = self.tcx.erase_and_anonymize_regions(args);
        let env = TypingEnv::non_body_analysis(self.tcx, self.owner);
        let resolved = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Instance::try_resolve(self.tcx, env, d, eargs)
        })) {
            Ok(Ok(Some(i))) => Some(i.def_id()),
            _ => None,
        };
        let r = match resolved {
            Some(r) => js(&self.path(r)),
            None => "null".into(),
        };
        let local = resolved.unwrap_or(d).is_local();
        let unsafe_ = self.tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        let krate = self.tcx.crate_name(d.krate).to_string();
        let intrinsic = self.tcx.intrinsic(d).is_some();
        let rid = match resolved.unwrap_or(d).as_local() {
            Some(l) => l.local_def_index.as_usize() as i64,
            None => -1,
        };
        format!(
            "{{\"fn\":{},\"targs\":[{}],\"res\":{},\"local\":{},\"id\":{},\"unsafe\":{},\"krate\":{},\"intrinsic\":{}}}",
            js(&self.path(d)),
            a.join(","),
            r,
            local,
            rid,
            unsafe_,
            js(&krate),
            intrinsic
        )
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        // returns json fragment for the value: {"str":..}|{"int":..}|{"pp":..}
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    return format!("\"str\":{}", js(&String::from_utf8_lossy(b)));
                }
            }
        }
        match t.kind() {
            ty::Bool => {
                if let Some(b) = v.try_to_bool() {
                    return format!("\"bool\":{}", b);
                }
            }
            ty::Char => {
                if let Some(s) = v.try_to_scalar_int() {
                    if let Some(c) = char::from_u32(s.to_u32()) {
                        return format!("\"char\":{}", c as u32);
                    }
                }
            }
            ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.to_bits(s.size());
                    return format!("\"int\":\"{}\"", bits);
                }
            }
            ty::Adt(def, _) if def.is_enum() => {
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.to_bits(s.size());
                    for (vi, d) in def.discriminants(self.tcx) {
                        if d.val == bits {
                            return format!("\"variant\":{}", vi.as_usize());
                        }
                    }
                }
            }
            _ => {}
        }
        let c = Const::Val(v, t);
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c));
        format!("\"pp\":{}", js(&s))
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fndef(*d, args.no_bound_vars().unwrap());
            let ti = self.ty(t);
            return format!("{{\"k\":{{\"ty\":{},\"fndef\":{}}}}}", ti, f);
        }
        let ti = self.ty(t);
        let env = TypingEnv::non_body_analysis(self.tcx, self.owner);
        let (name, val) = match c.const_ {
            Const::Val(v, _) => (None, Some(v)),
            Const::Unevaluated(u, _) => {
                let nm = if u.promoted.is_some() { "promoted".to_string() } else { self.path(u.def) };
                let v = if u.promoted.is_some() { None } else { c.const_.eval(self.tcx, env, c.span).ok() };
                (Some((nm, u.def.is_local())), v)
            }
            Const::Ty(..) => (None, c.const_.eval(self.tcx, env, c.span).ok()),
        };
        let mut o = format!("{{\"k\":{{\"ty\":{}", ti);
        if let Some((n, l)) = name {
            let _ = write!(o, ",\"item\":{},\"itemlocal\":{}", js(&n), l);
        }
        // a static reference?
        if let Some(sd) = c.check_static_ptr(self.tcx) {
            let _ = write!(o, ",\"static\":{}", js(&self.path(sd)));
        } else if let Some(v) = val {
            let s = self.cval(v, t);
            let _ = write!(o, ",{}", s);
        }
        o.push_str("}}");
        o
    }
    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(c),
            #[allow(unreachable_patterns)]
            _ => "{\"rt\":true}".into(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(body, o)),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"fake\":{},\"pl\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                matches!(bk, BorrowKind::Fake(_)),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"pl\":{}}}", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("{{\"r\":\"cast\",\"kind\":{},\"o\":{},\"t\":{}}}", js(&format!("{:?}", k)), self.operand(body, o), t)
            }
            Rvalue::BinaryOp(op, b) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                js(&format!("{:?}", op)),
                self.operand(body, &b.0),
                self.operand(body, &b.1)
            ),
            Rvalue::UnaryOp(op, o) => {
                format!("{{\"r\":\"un\",\"op\":{},\"o\":{}}}", js(&format!("{:?}", op)), self.operand(body, o))
            }
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"pl\":{}}}", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "\"ak\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let var = &def.variants()[*v];
                        let fs: Vec<String> = var.fields.iter().map(|f| js(f.name.as_str())).collect();
                        format!(
                            "\"ak\":\"adt\",\"def\":{},\"v\":{},\"vn\":{},\"fields\":[{}]",
                            js(&self.path(*d)),
                            v.as_usize(),
                            js(var.name.as_str()),
                            fs.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("\"ak\":\"closure\",\"def\":{}", js(&self.path(*d))),
                    _ => "\"ak\":\"other\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{},\"os\":[{}]}}", k, os.join(","))
            }
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(body, o), n)
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"c\":{}}}}}", self.place(body, p)),
            other => format!("{{\"r\":\"other\",\"s\":{}}}", js(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, body: &Body<'tcx>) -> String {
        let mut o = String::new();
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let _ = write!(o, "\"argc\":{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                o.push(',');
            }
            let t = self.ty(l.ty);
            let _ = write!(o, "{{\"t\":{}", t);
            if let Some(n) = names.get(&i.as_usize()) {
                let _ = write!(o, ",\"n\":{}", js(n));
            }
            o.push('}');
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cl\":{},\"s\":[", bb.is_cleanup);
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        format!("{{\"s\":\"a\",\"pl\":{},\"rv\":{},\"sp\":{}}}", self.place(body, p), self.rvalue(body, r), js(&self.span(st.source_info.span)))
                    }
                    StatementKind::StorageDead(l) => format!("{{\"s\":\"dead\",\"l\":{}}}", l.as_usize()),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("{{\"s\":\"setd\",\"pl\":{},\"v\":{}}}", self.place(body, place), variant_index.as_usize())
                    }
                    StatementKind::Intrinsic(i) => format!("{{\"s\":\"intr\",\"d\":{}}}", js(&format!("{:?}", i))),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let sp = js(&self.span(t.source_info.span));
            let s = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, t) in targets.iter() {
                        v.push(format!("[\"{}\",{}]", val, t.as_usize()));
                    }
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    format!("{{\"t\":\"switch\",\"o\":{},\"ty\":{},\"v\":[{}],\"e\":{}}}", self.operand(body, discr), dt, v.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "{\"t\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, replace, .. } => {
                    format!("{{\"t\":\"drop\",\"pl\":{},\"b\":{},\"rep\":{}}}", self.place(body, place), target.as_usize(), replace)
                }
                TerminatorKind::Call { func, args, destination, target, call_source, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, &x.node)).collect();
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":[{}],\"d\":{},\"b\":{},\"src\":{}}}",
                        self.operand(body, func),
                        a.join(","),
                        self.place(body, destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        js(&format!("{:?}", call_source))
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (kind, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(body, len), self.operand(body, index)]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![self.operand(body, a), self.operand(body, b)]),
                        AssertKind::DivisionByZero(a) | AssertKind::RemainderByZero(a) => ("divzero".into(), vec![self.operand(body, a)]),
                        AssertKind::OverflowNeg(a) => ("overflowneg".into(), vec![self.operand(body, a)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"ex\":{},\"k\":{},\"ops\":[{}],\"b\":{}}}",
                        self.operand(body, cond),
                        expected,
                        js(&kind),
                        ops.join(","),
                        target.as_usize()
                    )
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"t\":\"resume\"}".into(),
                TerminatorKind::InlineAsm { .. } => "{\"t\":\"asm\"}".into(),
                _ => "{\"t\":\"other\"}".into(),
            };
            let _ = write!(o, "{},\"sp\":{}}}", s, sp);
        }
        o.push(']');
        o
    }
}

struct UnsafeFinder {
    n: Vec<Span>,
}
impl<'v> rustc_hir::intravisit::Visitor<'v> for UnsafeFinder {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.n.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

impl rustc_driver::Callbacks for Dump {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("BQSA_CRATE").unwrap_or_default();
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let out = match std::env::var("BQSA_OUT") {
            Ok(o) if krate == want => o,
            _ => return Compilation::Continue,
        };
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        // clone every body before anything can steal it
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        for o in &owners {
            let k = tcx.def_kind(*o);
            if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                bodies.push((*o, tcx.mir_built(*o).borrow().clone()));
            }
        }
        let mut cx = Cx { tcx, tys: vec![], tymap: HashMap::new(), owner: bodies[0].0 };
        let mut fns = vec![];
        for (o, b) in &bodies {
            cx.owner = *o;
            let did = o.to_def_id();
            let derived = {
                let mut d = did;
                let mut res = false;
                while let Some(p) = tcx.opt_parent(d) {
                    if matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_automatically_derived(p) {
                        res = true;
                    }
                    d = p;
                }
                res
            };
            let span = tcx.def_span(did);
            let trait_of = tcx.trait_impl_of_assoc(did).map(|i| {
                let tr = tcx.impl_trait_ref(i).skip_binder();
                rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tr))
            });
            let mut uf = UnsafeFinder { n: vec![] };
            if tcx.def_kind(did) != DefKind::Closure {
                let hb = tcx.hir_body_owned_by(*o);
                rustc_hir::intravisit::Visitor::visit_expr(&mut uf, hb.value);
            }
            let uspans: Vec<String> = uf.n.iter().filter(|s| !s.from_expansion()).map(|s| js(&cx.span(*s))).collect();
            let upvars = if tcx.def_kind(did) == DefKind::Closure { tcx.closure_captures(*o).len() } else { 0 };
            let body = cx.body(b);
            fns.push(format!(
                "{{\"name\":{},\"id\":{},\"kind\":{},\"sp\":{},\"exp\":{},\"derived\":{},\"trait\":{},\"pub\":{},\"unsafe_blocks\":[{}],\"upvars\":{},{}}}",
                js(&cx.path(did)),
                o.local_def_index.as_usize(),
                js(&format!("{:?}", tcx.def_kind(did))),
                js(&cx.span(span)),
                span.from_expansion(),
                derived,
                trait_of.map(|s| js(&s)).unwrap_or("null".into()),
                tcx.visibility(did).is_public(),
                uspans.join(","),
                upvars,
                body
            ));
        }
        // items: statics, consts
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.def_id;
            let k = tcx.def_kind(d);
            match k {
                DefKind::Static { .. } | DefKind::Const { .. } => {
                    cx.owner = d;
                    let t = tcx.type_of(d).skip_binder();
                    let ti = cx.ty(t);
                    let val = if matches!(k, DefKind::Const { .. }) {
                        match tcx.const_eval_poly(d.to_def_id()) {
                            Ok(v) => cx.cval(v, t),
                            Err(_) => "\"err\":true".into(),
                        }
                    } else {
                        let init = match tcx.eval_static_initializer(d.to_def_id()) {
                            Ok(a) => {
                                let id = tcx.reserve_and_set_memory_alloc(a);
                                cx.cval(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, t)
                            }
                            Err(_) => "\"err\":true".into(),
                        };
                        init
                    };
                    let freeze = t.is_freeze(tcx, TypingEnv::non_body_analysis(tcx, d));
                    let mutst = matches!(k, DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. });
                    items.push(format!(
                        "{{\"name\":{},\"kind\":{},\"ty\":{},\"sp\":{},\"exp\":{},\"freeze\":{},\"mut\":{},{}}}",
                        js(&cx.path(d.to_def_id())),
                        js(&format!("{:?}", k)),
                        ti,
                        js(&cx.span(tcx.def_span(d))),
                        tcx.def_span(d).from_expansion(),
                        freeze,
                        mutst,
                        val
                    ));
                }
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(d).skip_binder();
                    cx.ty(t);
                    let def = tcx.adt_def(d);
                    if def.is_struct() {
                        let mut fs = vec![];
                        for f in &def.non_enum_variant().fields {
                            let ft = tcx.type_of(f.did).skip_binder();
                            let fi = cx.ty(ft);
                            fs.push(format!("{{\"n\":{},\"t\":{},\"pub\":{}}}", js(f.name.as_str()), fi, tcx.visibility(f.did).is_public()));
                        }
                        items.push(format!("{{\"name\":{},\"kind\":\"Struct\",\"fields\":[{}],\"sp\":{},\"exp\":{}}}", js(&cx.path(d.to_def_id())), fs.join(","), js(&cx.span(tcx.def_span(d))), tcx.def_span(d).from_expansion()));
                    } else {
                        let vs: Vec<String> = def.variants().iter().map(|v| js(v.name.as_str())).collect();
                        items.push(format!("{{\"name\":{},\"kind\":\"Enum\",\"vars\":[{}],\"sp\":{},\"exp\":{}}}", js(&cx.path(d.to_def_id())), vs.join(","), js(&cx.span(tcx.def_span(d))), tcx.def_span(d).from_expansion()));
                    }
                }
                _ => {}
            }
        }
        let doc = format!(
            "{{\"crate\":{},\n\"types\":[{}],\n\"items\":[{}],\n\"fns\":[{}]}}\n",
            js(&krate),
            cx.tys.join(",\n"),
            items.join(",\n"),
            fns.join(",\n")
        );
        std::fs::write(&out, doc).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc as first argument
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Dump))
}
