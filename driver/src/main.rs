//! rustc driver: dumps the type-checked, callee-resolved, monomorphised MIR of
//! the crate under analysis as JSON. It never runs the crate.
//! Used as RUSTC_WORKSPACE_WRAPPER; output path in MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<String, String>,
    queue: Vec<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashMap<String, ()>,
    bodies: Vec<String>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(format!("{}", t))
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        esc(&format!(
            "{}:{}",
            lo.file.name.prefer_local_unconditionally(),
            lo.line
        ))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.type_ids.insert(t, i);
        self.types.push(String::new());
        let d = self.ty_desc(t);
        let s = esc(&self.tystr(t));
        self.types[i] = format!("{{\"s\":{},{}}}", s, d);
        i
    }
    fn args_tys(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| a.as_type())
            .map(|t| self.ty(t).to_string())
            .collect();
        let c: Vec<String> = args
            .iter()
            .filter_map(|a| a.as_const())
            .map(|c| esc(&format!("{}", c)))
            .collect();
        format!("\"args\":[{}],\"cargs\":[{}]", v.join(","), c.join(","))
    }
    fn ty_desc(&mut self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Int(i) => format!("\"k\":\"int\",\"w\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"uint\",\"w\":{}", i.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                self.adt(def, args, t);
                let a = self.args_tys(args);
                format!(
                    "\"k\":\"adt\",\"path\":{},\"local\":{},{}",
                    esc(&p),
                    def.did().is_local(),
                    a
                )
            }
            ty::Ref(_, i, m) => {
                let x = self.ty(i);
                format!("\"k\":\"ref\",\"mut\":{},\"inner\":{}", m.is_mut(), x)
            }
            ty::RawPtr(i, m) => {
                let x = self.ty(i);
                format!("\"k\":\"ptr\",\"mut\":{},\"inner\":{}", m.is_mut(), x)
            }
            ty::Slice(i) => {
                let x = self.ty(i);
                format!("\"k\":\"slice\",\"inner\":{}", x)
            }
            ty::Array(i, n) => {
                let x = self.ty(i);
                let l = n
                    .try_to_target_usize(self.tcx)
                    .map(|v| v.to_string())
                    .unwrap_or("null".into());
                format!("\"k\":\"array\",\"inner\":{},\"len\":{}", x, l)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":[{}]", v.join(","))
            }
            ty::Closure(d, args) => {
                let key = self.inst_key(d, args);
                self.enqueue_closure(d, args);
                format!("\"k\":\"closure\",\"key\":{}", esc(&key))
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let c = self.callee(d, args);
                format!("\"k\":\"fndef\",\"callee\":{}", c)
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            _ => "\"k\":\"other\"".into(),
        }
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>, args: GenericArgsRef<'tcx>, t: Ty<'tcx>) {
        if !def.did().is_local()
            && !matches!(
                self.path(def.did()).as_str(),
                "std::option::Option" | "std::result::Result" | "std::ops::Range" | "std::ops::RangeTo"
                    | "std::ops::RangeFrom" | "std::ops::RangeInclusive" | "std::ops::ControlFlow"
                    | "std::cmp::Ordering" | "std::ops::RangeToInclusive" | "std::ops::RangeFull"
            )
        {
            return;
        }
        let key = self.tystr(t);
        if self.adts.contains_key(&key) {
            return;
        }
        self.adts.insert(key.clone(), String::new());
        let mut vs = vec![];
        for v in def.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = f.ty(self.tcx, args);
                let fty = self
                    .tcx
                    .try_normalize_erasing_regions(self.env, fty)
                    .unwrap_or(fty.skip_norm_wip());
                let i = self.ty(fty);
                fs.push(format!("[{},{}]", esc(f.name.as_str()), i));
            }
            vs.push(format!(
                "{{\"name\":{},\"fields\":[{}]}}",
                esc(v.name.as_str()),
                fs.join(",")
            ));
        }
        let kind = if def.is_enum() { "enum" } else { "struct" };
        let s = format!(
            "{{\"kind\":\"{}\",\"path\":{},\"variants\":[{}]}}",
            kind,
            esc(&self.path(def.did())),
            vs.join(",")
        );
        self.adts.insert(key, s);
    }
    fn inst_key(&self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let p = self.path(d);
        let is_closure = self.tcx.is_closure_like(d);
        let args = if is_closure {
            args.as_closure().parent_args()
        } else {
            args.as_slice()
        };
        let v: Vec<String> = args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| ty::print::with_no_trimmed_paths!(format!("{}", a)))
            .collect();
        if v.is_empty() {
            p
        } else {
            format!("{}@[{}]", p, v.join(","))
        }
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) {
        let key = self.inst_key(inst.def_id(), inst.args);
        if self.seen.contains_key(&key) {
            return;
        }
        self.seen.insert(key, ());
        self.queue.push((inst, self.env));
    }
    fn enqueue_closure(&mut self, d: DefId, args: GenericArgsRef<'tcx>) {
        if d.is_local() {
            let inst = Instance::new_raw(d, args);
            self.enqueue(inst);
        }
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let orig = self.path(d);
        let a = self.args_tys(args);
        let mut res = orig.clone();
        let mut key = String::from("null");
        let mut derived = false;
        let r = Instance::try_resolve(tcx, self.env, d, args);
        if let Ok(Some(i)) = r {
            res = self.path(i.def_id());
            if let Some(p) = tcx.impl_of_assoc(i.def_id()) {
                derived = tcx.is_automatically_derived(p);
            }
            if i.def_id().is_local()
                && matches!(i.def, ty::InstanceKind::Item(_))
                && tcx.is_mir_available(i.def_id())
            {
                key = esc(&self.inst_key(i.def_id(), i.args));
                self.enqueue(i);
            }
        }
        let tr = tcx.trait_of_assoc(d).is_some();
        let diverges = {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            sig.output().skip_binder().is_never()
        };
        format!(
            "{{\"orig\":{},\"res\":{},\"trait\":{},\"derived\":{},\"never\":{},\"key\":{},{}}}",
            esc(&orig),
            esc(&res),
            tr,
            derived,
            diverges,
            key,
            a
        )
    }
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut s = format!("{{\"l\":{},\"p\":[", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut first = true;
        for e in p.projection.iter() {
            if !first {
                s.push(',');
            }
            first = false;
            match e {
                ProjectionElem::Deref => s.push_str("[\"deref\"]"),
                ProjectionElem::Field(f, t) => {
                    let ti = self.ty(t);
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = def.variant(vi);
                            if f.as_usize() < v.fields.len() {
                                v.fields[f].name.to_string()
                            } else {
                                String::new()
                            }
                        }
                        _ => String::new(),
                    };
                    let _ = write!(s, "[\"field\",{},{},{}]", f.as_u32(), esc(&name), ti);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, "[\"index\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => {
                    let _ = write!(s, "[\"cindex\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, "[\"subslice\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = n.map(|n| n.to_string()).unwrap_or_default();
                    let _ = write!(s, "[\"downcast\",{},{}]", v.as_u32(), esc(&nm));
                }
                _ => s.push_str("[\"cast\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        let ti = self.ty(pt.ty);
        let _ = write!(s, "],\"ty\":{}}}", ti);
        s
    }
    fn constant(&mut self, c: &mir::Const<'tcx>, parent: &str) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let mut extra = String::new();
        match *c {
            mir::Const::Unevaluated(u, _) if u.promoted.is_some() => {
                let _ = write!(
                    extra,
                    ",\"promoted\":{},\"owner\":{}",
                    u.promoted.unwrap().as_u32(),
                    esc(parent)
                );
            }
            _ => {
                if t.is_integral() || t.is_bool() || t.is_char() {
                    if let Some(b) = c.try_eval_bits(self.tcx, self.env) {
                        let v = if let ty::Int(i) = t.kind() {
                            let w = i.bit_width().unwrap_or(64);
                            let sh = 128 - w;
                            format!("{}", ((b << sh) as i128) >> sh)
                        } else {
                            format!("{}", b)
                        };
                        let _ = write!(extra, ",\"v\":{}", v);
                    }
                } else if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        let s = ty::print::with_no_trimmed_paths!(format!("{}", c));
                        let _ = write!(extra, ",\"str\":{}", esc(&s));
                    }
                }
            }
        }
        let s = ty::print::with_no_trimmed_paths!(format!("{}", c));
        format!("{{\"const\":{{\"ty\":{},\"repr\":{}{}}}}}", ti, esc(&s), extra)
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, parent: &str) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"copy\":{}}}", self.place(body, *p)),
            Operand::Move(p) => format!("{{\"move\":{}}}", self.place(body, *p)),
            Operand::Constant(c) => self.constant(&c.const_, parent),
            Operand::RuntimeChecks(_) => "{\"rtcheck\":0}".into(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, parent: &str) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, o, parent)),
            Rvalue::Repeat(o, n) => {
                let l = n
                    .try_to_target_usize(self.tcx)
                    .map(|v| v.to_string())
                    .unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(body, o, parent), l)
            }
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                self.place(body, *p),
                matches!(k, BorrowKind::Mut { .. })
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(body, *p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let ft = o.ty(&body.local_decls, self.tcx);
                let fi = self.ty(ft);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{:?}", k)),
                    self.operand(body, o, parent),
                    ti,
                    fi
                )
            }
            Rvalue::BinaryOp(op, b) => {
                let lt = b.0.ty(&body.local_decls, self.tcx);
                let li = self.ty(lt);
                format!(
                    "[\"bin\",{},{},{},{}]",
                    esc(&format!("{:?}", op)),
                    self.operand(body, &b.0, parent),
                    self.operand(body, &b.1, parent),
                    li
                )
            }
            Rvalue::UnaryOp(op, o) => {
                let lt = o.ty(&body.local_decls, self.tcx);
                let li = self.ty(lt);
                format!(
                    "[\"un\",{},{},{}]",
                    esc(&format!("{:?}", op)),
                    self.operand(body, o, parent),
                    li
                )
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, *p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops
                    .iter()
                    .map(|o| self.operand(body, o, parent))
                    .collect();
                let kd = match **k {
                    AggregateKind::Array(t) => {
                        let i = self.ty(t);
                        format!("{{\"k\":\"array\",\"ty\":{}}}", i)
                    }
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".into(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(d), args);
                        let i = self.ty(t);
                        format!("{{\"k\":\"adt\",\"ty\":{},\"variant\":{}}}", i, v.as_u32())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, d, args);
                        let i = self.ty(t);
                        format!("{{\"k\":\"closure\",\"ty\":{}}}", i)
                    }
                    _ => "{\"k\":\"other\"}".into(),
                };
                format!("[\"agg\",{},[{}]]", kd, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"copy\":{}}}]", self.place(body, *p)),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, key: &str) -> String {
        let mut s = String::new();
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let ls: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_u32()) {
                    Some(n) => format!("[{},{}]", t, esc(n)),
                    None => format!("[{}]", t),
                }
            })
            .collect();
        let _ = write!(
            s,
            "\"span\":{},\"argc\":{},\"locals\":[{}],\"blocks\":[",
            self.span(body.span),
            body.arg_count,
            ls.join(",")
        );
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 {
                s.push(',');
            }
            if bb.is_cleanup {
                s.push_str("null");
                continue;
            }
            let mut st = vec![];
            for stmt in &bb.statements {
                match &stmt.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, b.0);
                        let r = self.rvalue(body, &b.1, key);
                        st.push(format!(
                            "[\"=\",{},{},{}]",
                            p,
                            r,
                            self.span(stmt.source_info.span)
                        ));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        let p = self.place(body, **place);
                        st.push(format!("[\"setdiscr\",{},{}]", p, variant_index.as_u32()));
                    }
                    StatementKind::Intrinsic(_) => {
                        st.push(format!("[\"intr\",{}]", esc(&format!("{:?}", stmt.kind))));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let di = self.ty(dt);
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", v, b.as_u32()))
                        .collect();
                    format!(
                        "[\"switch\",{},[{}],{},{}]",
                        self.operand(body, discr, key),
                        ts.join(","),
                        targets.otherwise().as_u32(),
                        di
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let ft = func.ty(&body.local_decls, self.tcx);
                    let c = match *ft.kind() {
                        ty::FnDef(d, a) => {
                            let a = a.no_bound_vars().unwrap();
                            self.callee(d, a)
                        }
                        _ => format!("{{\"ptr\":{}}}", self.operand(body, func, key)),
                    };
                    let os: Vec<String> = args
                        .iter()
                        .map(|o| self.operand(body, &o.node, key))
                        .collect();
                    let d = self.place(body, *destination);
                    format!(
                        "[\"call\",{},[{}],{},{}]",
                        c,
                        os.join(","),
                        d,
                        target
                            .map(|t| t.as_u32().to_string())
                            .unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    target,
                    msg,
                    ..
                } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::DivisionByZero(_) => "div0",
                        AssertKind::RemainderByZero(_) => "rem0",
                        _ => "other",
                    };
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(body, cond, key),
                        expected,
                        target.as_u32(),
                        esc(m)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                k => format!("[\"other\",{}]", esc(&format!("{:?}", k))),
            };
            let _ = write!(
                s,
                "{{\"s\":[{}],\"t\":{},\"sp\":{}}}",
                st.join(","),
                t,
                sp
            );
        }
        s.push(']');
        s
    }
    fn dump_instance(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let key = self.inst_key(did, inst.args);
        let b = tcx.optimized_mir(did).clone();
        let b = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, b),
        );
        let mut s = format!(
            "{{\"key\":{},\"path\":{},\"closure\":{},",
            esc(&key),
            esc(&self.path(did)),
            tcx.is_closure_like(did)
        );
        let derived = tcx
            .impl_of_assoc(did)
            .map(|p| tcx.is_automatically_derived(p))
            .unwrap_or(false);
        let unsafe_ = matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn)
            && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        let _ = write!(s, "\"derived\":{},\"unsafe\":{},", derived, unsafe_);
        let names: Vec<String> = if tcx.is_closure_like(did) {
            did.as_local()
                .map(|l| {
                    tcx.closure_captures(l)
                        .iter()
                        .map(|c| esc(&c.to_symbol().to_string()))
                        .collect()
                })
                .unwrap_or_default()
        } else {
            vec![]
        };
        let _ = write!(s, "\"upvars\":[{}],", names.join(","));
        s.push_str(&self.body(&b, &key));
        let proms = tcx.promoted_mir(did).clone();
        let mut ps = vec![];
        for p in proms.iter() {
            let p = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                ty::EarlyBinder::bind(tcx, p.clone()),
            );
            ps.push(format!("{{{}}}", self.body(&p, &key)));
        }
        let _ = write!(s, ",\"promoted\":[{}]}}", ps.join(","));
        self.bodies.push(s);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return rustc_driver::Compilation::Continue,
        };
        let mut d = Dump {
            tcx,
            types: vec![],
            type_ids: HashMap::new(),
            adts: HashMap::new(),
            queue: vec![],
            seen: HashMap::new(),
            bodies: vec![],
            env: TypingEnv::fully_monomorphized(),
        };
        // roots: non generic functions first, then generic ones with identity args
        let mut generic = vec![];
        for l in tcx.mir_keys(()) {
            let did = l.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.generics_of(did).requires_monomorphization(tcx) {
                generic.push(did);
                continue;
            }
            d.env = TypingEnv::fully_monomorphized();
            d.enqueue(Instance::mono(tcx, did));
        }
        loop {
            while let Some((i, env)) = d.queue.pop() {
                d.env = env;
                d.dump_instance(i);
            }
            match generic.pop() {
                Some(g) => {
                    d.env = TypingEnv::post_analysis(tcx, g);
                    let args = ty::GenericArgs::identity_for_item(tcx, g);
                    d.enqueue(Instance::new_raw(g, args));
                }
                None => break,
            }
        }
        let mut s = String::from("{\"types\":[");
        s.push_str(&d.types.join(",\n"));
        s.push_str("],\n\"adts\":{");
        let mut ks: Vec<_> = d.adts.iter().collect();
        ks.sort();
        let ks: Vec<String> = ks
            .iter()
            .map(|(k, v)| format!("{}:{}", esc(k), v))
            .collect();
        s.push_str(&ks.join(",\n"));
        s.push_str("},\n\"bodies\":[");
        s.push_str(&d.bodies.join(",\n"));
        s.push_str("]}");
        std::fs::write(out, s).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as `mirdump <rustc> <args..>` by cargo
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let lib = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == "onion_pir");
    if lib {
        for a in ["-Cdebug-assertions=off", "-Coverflow-checks=off", "-Zmir-opt-level=0", "-Awarnings"] {
            args.push(a.to_string());
        }
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
