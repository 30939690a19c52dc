// mirdump: a rustc wrapper that writes down what the analyser needs to know about a crate.
//
// It is used as RUSTC_WRAPPER.  For every crate it is an ordinary rustc; for the crate named by
// MIRDUMP_POKER it also writes the polymorphic facts of all its bodies (`poly.json`), and for the
// crate named by MIRDUMP_ROOTS the monomorphic MIR of everything its functions reach (`mono.json`).
// Nothing is executed: constants are read from the compiler's own constant evaluation.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_const_eval::const_eval::mk_eval_cx_for_const_val;
use rustc_const_eval::interpret::{OpTy, Projectable};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<String>,
    tyid: HashMap<Ty<'tcx>, usize>,
    insts: Vec<Option<String>>,
    instid: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    statics: HashMap<DefId, usize>,
    static_out: Vec<String>,
    poly: bool,
    stop: Vec<String>,
}

impl<'tcx> D<'tcx> {
    fn new(tcx: TyCtxt<'tcx>, poly: bool) -> Self {
        let stop = std::env::var("MIRDUMP_STOP").unwrap_or_default();
        D {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            types: vec![],
            tyid: HashMap::new(),
            insts: vec![],
            instid: HashMap::new(),
            queue: VecDeque::new(),
            statics: HashMap::new(),
            static_out: vec![],
            poly,
            stop: stop.split(',').filter(|s| !s.is_empty()).map(String::from).collect(),
        }
    }

    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }

    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return "null".into();
        }
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        q(&format!("{}:{}", f, loc.line))
    }

    fn const_usize(&self, c: ty::Const<'tcx>) -> String {
        match c.try_to_target_usize(self.tcx) {
            Some(n) => n.to_string(),
            None => "null".into(),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = if self.poly { t } else {
            self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
        };
        if let Some(&i) = self.tyid.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tyid.insert(t, id);
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        let tcx = self.tcx;
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Int(i) => format!(
                "\"k\":\"int\",\"signed\":true,\"bits\":{}",
                i.bit_width().unwrap_or(64)
            ),
            ty::Uint(i) => format!(
                "\"k\":\"int\",\"signed\":false,\"bits\":{}",
                i.bit_width().unwrap_or(64)
            ),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Ref(_, x, m) => {
                let x = self.ty(x);
                format!("\"k\":\"ref\",\"mut\":{},\"ty\":{}", m.is_mut(), x)
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(x);
                format!("\"k\":\"ptr\",\"mut\":{},\"ty\":{}", m.is_mut(), x)
            }
            ty::Slice(x) => {
                let x = self.ty(x);
                format!("\"k\":\"slice\",\"ty\":{}", x)
            }
            ty::Array(x, n) => {
                let x = self.ty(x);
                let n = self.const_usize(n);
                format!("\"k\":\"array\",\"ty\":{},\"len\":{}", x, n)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"tys\":{}", arr(&v))
            }
            ty::Adt(def, args) => {
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let cargs: Vec<String> = args.consts().map(|c| self.const_usize(c)).collect();
                let mut vs = vec![];
                let discrs: Vec<String> = if def.is_enum() {
                    def.discriminants(tcx).map(|(_, d)| {
                        // sign-extended value as a decimal string
                        q(&format!("{}", d))
                    }).collect()
                } else {
                    vec![]
                };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(tcx, args).skip_norm_wip();
                        let fid = self.ty(fty);
                        let vis = match f.vis {
                            ty::Visibility::Public => "pub".to_string(),
                            ty::Visibility::Restricted(m) => self.path(m.into()),
                        };
                        fs.push(format!(
                            "{{\"name\":{},\"ty\":{},\"vis\":{}}}",
                            q(f.name.as_str()),
                            fid,
                            q(&vis)
                        ));
                    }
                    let d = discrs.get(vi.as_usize()).cloned().unwrap_or("null".into());
                    vs.push(format!(
                        "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                        q(v.name.as_str()),
                        d,
                        arr(&fs)
                    ));
                }
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                format!(
                    "\"k\":\"adt\",\"adt\":{},\"path\":{},\"crate\":{},\"args\":{},\"cargs\":{},\"variants\":{},\"vis\":{}",
                    q(kind),
                    q(&self.path(def.did())),
                    q(&self.krate(def.did())),
                    arr(&targs),
                    arr(&cargs),
                    arr(&vs),
                    q(&format!("{:?}", tcx.visibility(def.did())))
                )
            }
            ty::Closure(def, args) => {
                let ups: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let inst = if self.poly || t.has_param() {
                    "null".to_string()
                } else {
                    let i = Instance::new_raw(def, args);
                    self.inst(i).to_string()
                };
                let kind = if self.poly { "?".to_string() } else { format!("{:?}", args.as_closure().kind()) };
                format!(
                    "\"k\":\"closure\",\"path\":{},\"crate\":{},\"upvars\":{},\"inst\":{},\"ckind\":{}",
                    q(&self.path(def)),
                    q(&self.krate(def)),
                    arr(&ups),
                    inst,
                    q(&kind)
                )
            }
            ty::FnDef(def, args) => {
                let args = args.no_bound_vars();
                let r = match args { Some(a) => self.resolve(def, a), None => "null".into() };
                format!("\"k\":\"fndef\",\"path\":{},\"inst\":{}", q(&self.path(def)), r)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Param(_) => "\"k\":\"param\"".into(),
            ty::Alias(..) => "\"k\":\"alias\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        let freeze = if self.poly || t.has_param() { "null".to_string() } else { t.is_freeze(self.tcx, self.env).to_string() };
        self.types[id] = format!("{{\"name\":{},\"freeze\":{},{}}}", q(&name), freeze, body);
        id
    }

    fn resolve(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        if self.poly {
            return format!("{{\"poly\":{}}}", q(&self.path(def)));
        }
        let args = self.tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(self.tcx, self.env, def, args) {
            Ok(Some(i)) => self.inst(i).to_string(),
            _ => "null".into(),
        }
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let i = self.tcx.erase_and_anonymize_regions(i);
        if let Some(&x) = self.instid.get(&i) {
            return x;
        }
        let id = self.insts.len();
        self.insts.push(None);
        self.instid.insert(i, id);
        self.queue.push_back((i, id));
        id
    }

    fn drain(&mut self) {
        while let Some((i, id)) = self.queue.pop_front() {
            let s = self.dump_inst(i);
            self.insts[id] = Some(s);
        }
    }

    fn dump_inst(&mut self, i: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let def = i.def_id();
        let path = self.path(def);
        let krate = self.krate(def);
        let kind = match i.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic".into(),
            InstanceKind::Virtual(..) => "virtual".into(),
            InstanceKind::Shim(s) => match s {
                ShimKind::DropGlue(..) => "drop".into(),
                ShimKind::Clone(..) => "clone_shim".into(),
                ShimKind::FnPtr(..) => "fnptr_shim".into(),
                ShimKind::ClosureOnce { .. } => "closure_once".into(),
                ShimKind::Reify(..) => "reify".into(),
                _ => "shim".into(),
            },
        };
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(tcx
            .def_path_str_with_args(def, i.args));
        let targs: Vec<String> = i.args.types().map(|t| self.ty(t).to_string()).collect();
        let cargs: Vec<String> = i.args.consts().map(|c| self.const_usize(c)).collect();
        let dk = tcx.def_kind(def);
        let trait_item = if dk.is_assoc() {
            if let Some(t) = tcx.trait_item_of(def) {
                q(&self.path(t))
            } else if tcx.trait_of_assoc(def).is_some() {
                q(&path)
            } else {
                "null".into()
            }
        } else {
            "null".into()
        };
        let self_ty = if let Some(im) = if dk.is_assoc() { tcx.impl_of_assoc(def) } else { None } {
            let t = tcx.type_of(im).instantiate(tcx, i.args).skip_norm_wip();
            self.ty(t).to_string()
        } else if dk.is_assoc() && tcx.trait_of_assoc(def).is_some() {
            self.ty(i.args.type_at(0)).to_string()
        } else {
            "null".into()
        };
        let is_closure = matches!(dk, DefKind::Closure);
        let mut extra = String::new();
        if let InstanceKind::Shim(ShimKind::FnPtr(_, t)) = i.def {
            let _ = write!(extra, ",\"shim_ty\":{}", self.ty(t));
        }
        if let InstanceKind::Shim(ShimKind::Clone(_, t)) = i.def {
            let _ = write!(extra, ",\"shim_ty\":{}", self.ty(t));
        }
        if let InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) = i.def {
            let _ = write!(extra, ",\"shim_ty\":{}", self.ty(t));
        }
        if matches!(dk, DefKind::Ctor(..)) {
            // the function that builds a variant or a tuple struct
            let sig = tcx.fn_sig(def).instantiate(tcx, i.args).skip_norm_wip();
            let out = tcx.instantiate_bound_regions_with_erased(sig).output();
            if let ty::Adt(adt, _) = out.kind() {
                let v = if adt.is_enum() { adt.variant_index_with_ctor_id(def).as_usize() as i64 } else { -1 };
                let _ = write!(extra, ",\"ctor\":[{},{}]", self.ty(out), v);
            }
        }
        let stopped = self.stop.iter().any(|s| {
            path.starts_with(s.as_str()) || name.starts_with(s.as_str())
        });
        let body = match i.def {
            InstanceKind::Item(d) if !stopped && tcx.is_mir_available(d) && !tcx.is_foreign_item(d) => {
                Some(tcx.instance_mir(i.def))
            }
            InstanceKind::Shim(ShimKind::FnPtr(..) | ShimKind::ClosureOnce { .. } | ShimKind::Clone(..)) if !stopped => {
                Some(tcx.instance_mir(i.def))
            }
            _ => None,
        };
        let body = match body {
            Some(b) => {
                let b = i.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env,
                    ty::EarlyBinder::bind(tcx, b.clone()),
                );
                self.dump_body(&b)
            }
            None => "null".into(),
        };
        format!(
            "{{\"name\":{},\"path\":{},\"crate\":{},\"kind\":{},\"trait_item\":{},\"self_ty\":{},\"targs\":{},\"cargs\":{},\"closure\":{},\"span\":{},\"unsafe\":{}{},\"body\":{}}}",
            q(&name), q(&path), q(&krate), q(&kind), trait_item, self_ty, arr(&targs), arr(&cargs),
            is_closure, self.span(tcx.def_span(def)),
            matches!(dk, DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(def).skip_binder().safety().is_unsafe(),
            extra, body
        )
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"field\",{},{}]", f.as_usize(), t)
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"subslice\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"downcast\",{}]", v.as_usize()),
                ProjectionElem::OpaqueCast(_) => "[\"opaque\"]".into(),
                ProjectionElem::UnwrapUnsafeBinder(_) => "[\"unwrapbinder\"]".into(),
                #[allow(unreachable_patterns)]
                _ => "[\"other\"]".into(),
            });
        }
        if v.is_empty() {
            format!("[{}]", p.local.as_usize())
        } else {
            format!("[{},{}]", p.local.as_usize(), arr(&v))
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"copy\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"move\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c.const_, c.span),
            Operand::RuntimeChecks(k) => {
                format!("{{\"rtcheck\":{}}}", q(&format!("{:?}", k)))
            }
        }
    }

    fn constant(&mut self, c: mir::Const<'tcx>, span: Span) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = if self.poly && (c.has_param() || t.has_param()) {
            "{\"poly\":true}".to_string()
        } else {
            match t.kind() {
                ty::FnDef(def, args) => {
                    let r = match args.no_bound_vars() { Some(a) => self.resolve(*def, a), None => "null".into() };
                    format!("{{\"fn\":{}}}", r)
                }
                _ => match c.eval(self.tcx, self.env, span) {
                    Ok(v) => self.const_value(v, t),
                    Err(_) => "{\"err\":\"const eval\"}".into(),
                },
            }
        };
        // where a named constant is used, its path
        let mut nm = String::new();
        if let mir::Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                nm = format!(",\"name\":{}", q(&self.path(u.def)));
            }
        }
        format!("{{\"const\":{},\"ty\":{}{}}}", v, tid, nm)
    }

    fn const_value(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> String {
        match mk_eval_cx_for_const_val(self.tcx.at(rustc_span::DUMMY_SP), self.env, v, t) {
            Some((ecx, op)) => {
                let mut budget = 400_000usize;
                self.tree(&ecx, &op, 0, &mut budget)
            }
            None => "{\"err\":\"no value\"}".into(),
        }
    }

    fn tree(
        &mut self,
        ecx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>,
        op: &OpTy<'tcx>,
        depth: usize,
        budget: &mut usize,
    ) -> String {
        if depth > 60 || *budget == 0 {
            return "{\"err\":\"too deep\"}".into();
        }
        *budget -= 1;
        let t = op.layout.ty;
        macro_rules! ok {
            ($e:expr) => {
                match $e.report_err() {
                    Ok(x) => x,
                    Err(_) => return "{\"err\":\"read\"}".into(),
                }
            };
        }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let imm = ok!(ecx.read_immediate(op));
                match imm.to_scalar().try_to_scalar_int() {
                    Ok(s) => {
                        let sz = s.size();
                        let txt = if t.is_signed() {
                            s.to_int(sz).to_string()
                        } else {
                            s.to_uint(sz).to_string()
                        };
                        format!("{{\"int\":{}}}", txt)
                    }
                    Err(_) => "{\"err\":\"ptr as int\"}".into(),
                }
            }
            ty::Float(_) => {
                let imm = ok!(ecx.read_immediate(op));
                match imm.to_scalar().try_to_scalar_int() {
                    Ok(s) => format!("{{\"float\":{}}}", s.to_uint(s.size())),
                    Err(_) => "{\"err\":\"float\"}".into(),
                }
            }
            ty::FnDef(def, args) => {
                let r = match args.no_bound_vars() { Some(a) => self.resolve(def, a), None => "null".into() };
                format!("{{\"fn\":{}}}", r)
            }
            ty::Ref(_, inner, _) => {
                // a static?
                if let Ok(imm) = ecx.read_immediate(op).report_err() {
                    if let mir::interpret::Scalar::Ptr(p, _) = match *imm {
                        rustc_const_eval::interpret::Immediate::Scalar(s) => s,
                        rustc_const_eval::interpret::Immediate::ScalarPair(s, _) => s,
                        _ => return "{\"err\":\"imm\"}".into(),
                    } {
                        let aid = p.provenance.alloc_id();
                        match self.tcx.try_get_global_alloc(aid) {
                            Some(mir::interpret::GlobalAlloc::Static(d)) => {
                                let s = self.static_ref(d);
                                return format!("{{\"static\":{}}}", s);
                            }
                            _ => {}
                        }
                    }
                }
                if let ty::Dynamic(..) = inner.kind() {
                    return "{\"err\":\"dyn\"}".into();
                }
                let m = ok!(ecx.deref_pointer(op));
                let mop: OpTy<'tcx> = m.into();
                let x = self.tree(ecx, &mop, depth + 1, budget);
                format!("{{\"ref\":{}}}", x)
            }
            ty::RawPtr(inner, _) => {
                if let ty::Dynamic(..) = inner.kind() {
                    return "{\"err\":\"dyn\"}".into();
                }
                let imm = ok!(ecx.read_immediate(op));
                if let rustc_const_eval::interpret::Immediate::Scalar(s) = *imm {
                    if let Ok(i) = s.try_to_scalar_int() {
                        return format!("{{\"int\":{}}}", i.to_uint(i.size()));
                    }
                    if let mir::interpret::Scalar::Ptr(p, _) = s {
                        if let Some(mir::interpret::GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                            let s = self.static_ref(d);
                            return format!("{{\"static\":{}}}", s);
                        }
                    }
                }
                "{\"err\":\"rawptr\"}".into()
            }
            ty::Str => {
                let m = match op.as_mplace_or_imm().left() {
                    Some(m) => m,
                    None => return "{\"err\":\"str imm\"}".into(),
                };
                let s = ok!(ecx.read_str(&m));
                format!("{{\"str\":{}}}", q(s))
            }
            ty::Slice(e) | ty::Array(e, _) => {
                let n = match op.len(ecx).report_err() {
                    Ok(n) => n,
                    Err(_) => return "{\"err\":\"len\"}".into(),
                };
                if n > 100_000 {
                    return "{\"err\":\"long\"}".into();
                }
                let mut v = vec![];
                let mut bytes = true;
                let is_u8 = e == self.tcx.types.u8;
                for i in 0..n {
                    let x = ok!(ecx.project_index(op, i));
                    let s = self.tree(ecx, &x, depth + 1, budget);
                    if !is_u8 {
                        bytes = false;
                    }
                    v.push(s);
                }
                if bytes && is_u8 {
                    let v: Vec<String> =
                        v.iter().map(|s| s.trim_start_matches("{\"int\":").trim_end_matches('}').to_string()).collect();
                    return format!("{{\"bytes\":{}}}", arr(&v));
                }
                format!("{{\"array\":{}}}", arr(&v))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    let x = ok!(ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)));
                    v.push(self.tree(ecx, &x, depth + 1, budget));
                }
                format!("{{\"agg\":{}}}", arr(&v))
            }
            ty::Closure(_, args) => {
                let n = args.as_closure().upvar_tys().len();
                let mut v = vec![];
                for i in 0..n {
                    let x = ok!(ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)));
                    v.push(self.tree(ecx, &x, depth + 1, budget));
                }
                format!("{{\"agg\":{}}}", arr(&v))
            }
            ty::Adt(def, _) => {
                if def.is_union() {
                    return "{\"err\":\"union\"}".into();
                }
                let (place, vi, isenum) = if def.is_enum() {
                    let vi = ok!(ecx.read_discriminant(op));
                    (ok!(ecx.project_downcast(op, vi)), vi, true)
                } else {
                    (op.clone(), rustc_abi::FIRST_VARIANT, false)
                };
                let n = def.variant(vi).fields.len();
                let mut v = vec![];
                for i in 0..n {
                    let x = ok!(ecx.project_field(&place, rustc_abi::FieldIdx::from_usize(i)));
                    v.push(self.tree(ecx, &x, depth + 1, budget));
                }
                if isenum {
                    format!("{{\"enum\":{},\"fields\":{}}}", vi.as_usize(), arr(&v))
                } else {
                    format!("{{\"agg\":{}}}", arr(&v))
                }
            }
            _ => "{\"err\":\"kind\"}".into(),
        }
    }

    fn static_ref(&mut self, d: DefId) -> usize {
        if let Some(&i) = self.statics.get(&d) {
            return i;
        }
        let id = self.static_out.len();
        self.static_out.push(String::new());
        self.statics.insert(d, id);
        let t = self.tcx.type_of(d).skip_binder();
        let tid = self.ty(t);
        let mutable = self.tcx.is_mutable_static(d);
        let freeze = t.is_freeze(self.tcx, self.env);
        let atomic = format!("{:?}", t).contains("atomic::Atomic");
        let val = if mutable || (!freeze && !atomic) || self.tcx.is_foreign_item(d) || self.tcx.is_thread_local_static(d) {
            "null".to_string()
        } else {
            match self.tcx.eval_static_initializer(d) {
                Ok(a) => {
                    // a static that can change is read as it starts
                    let mut b = a.inner().clone();
                    b.mutability = rustc_ast::Mutability::Not;
                    let a = self.tcx.mk_const_alloc(b);
                    let aid = self.tcx.reserve_and_set_memory_alloc(a);
                    let v = mir::ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::ZERO };
                    self.const_value(v, t)
                }
                Err(_) => "null".to_string(),
            }
        };
        self.static_out[id] = format!(
            "{{\"path\":{},\"crate\":{},\"ty\":{},\"mut\":{},\"freeze\":{},\"val\":{}}}",
            q(&self.path(d)),
            q(&self.krate(d)),
            tid,
            mutable,
            freeze,
            val
        );
        id
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = self.const_usize(*n);
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", m, self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"r\":\"reborrow\",\"mut\":{},\"p\":{}}}", m.is_mut(), self.place(p))
            }
            Rvalue::ThreadLocalRef(d) => {
                format!("{{\"r\":\"tls\",\"path\":{}}}", q(&self.path(*d)))
            }
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let t = self.ty(*t);
                format!("{{\"r\":\"cast\",\"k\":{},\"o\":{},\"ty\":{}}}", q(&ks), self.operand(o), t)
            }
            Rvalue::BinaryOp(op, b) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                q(&format!("{:?}", op)),
                self.operand(&b.0),
                self.operand(&b.1)
            ),
            Rvalue::UnaryOp(op, o) => format!(
                "{{\"r\":\"un\",\"op\":{},\"o\":{}}}",
                q(&format!("{:?}", op)),
                self.operand(o)
            ),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("\"k\":\"array\",\"ety\":{}", t)
                    }
                    AggregateKind::Tuple => "\"k\":\"tuple\"".into(),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let isenum = self.tcx.adt_def(*d).is_enum();
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let tid = self.ty(t);
                        format!(
                            "\"k\":\"adt\",\"path\":{},\"variant\":{},\"enum\":{},\"ty\":{},\"active\":{}",
                            q(&self.path(*d)),
                            vi.as_usize(),
                            isenum,
                            tid,
                            active.map(|a| a.as_usize().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let tid = self.ty(t);
                        format!("\"k\":\"closure\",\"path\":{},\"ty\":{}", q(&self.path(*d)), tid)
                    }
                    AggregateKind::RawPtr(..) => "\"k\":\"rawptr\"".into(),
                    _ => "\"k\":\"other\"".into(),
                };
                format!("{{\"r\":\"agg\",{},\"ops\":{}}}", ks, arr(&v))
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"o\":{{\"copy\":{}}}}}", self.place(p))
            }
            Rvalue::WrapUnsafeBinder(..) => "{\"r\":\"other\"}".into(),
        }
    }

    // What a trait object made in the analysed crates can be asked to do.
    fn vtable(&mut self, b: &Body<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) {
        let k = self.krate(b.source.def_id());
        if k != "poker" && k != "vroots" {
            return;
        }
        fn pointee<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
            match t.kind() {
                ty::Ref(_, t, _) => Some(*t),
                ty::RawPtr(t, _) => Some(*t),
                ty::Adt(_, args) => args.types().next(),
                _ => None,
            }
        }
        let (Some(from), Some(to)) = (pointee(from), pointee(to)) else { return };
        if let ty::Dynamic(preds, ..) = to.kind() {
            if matches!(from.kind(), ty::Dynamic(..)) {
                return;
            }
            self.ty(from);
            if let Some(p) = preds.principal() {
                let tr = p.with_self_ty(self.tcx, from);
                let tr = self.tcx.erase_and_anonymize_regions(self.tcx.instantiate_bound_regions_with_erased(tr));
                for e in self.tcx.vtable_entries(tr) {
                    if let ty::VtblEntry::Method(i) = e {
                        self.inst(*i);
                    }
                }
            }
        }
    }

    fn dump_body(&mut self, b: &Body<'tcx>) -> String {
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1);
                        if let Rvalue::Cast(CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _), o, t) = &x.1 {
                            if !self.poly {
                                self.vtable(b, o.ty(&b.local_decls, self.tcx), *t);
                            }
                        }
                        st.push(format!("{{\"s\":\"assign\",\"p\":{},\"v\":{},\"sp\":{}}}", p, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!(
                            "{{\"s\":\"setdiscr\",\"p\":{},\"v\":{},\"sp\":{}}}",
                            p,
                            variant_index.as_usize(),
                            sp
                        ));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(format!("{{\"s\":\"live\",\"l\":{}}}", l.as_usize()));
                    }
                    StatementKind::StorageDead(_) => {}
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => {
                            st.push(format!("{{\"s\":\"copynonoverlapping\",\"sp\":{}}}", sp));
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"t\":\"goto\",\"to\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dty);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| {
                            // values are raw bits; sign-extend for signed types
                            let txt = if dty.is_signed() {
                                let bits = match dty.kind() {
                                    ty::Int(i) => i.bit_width().unwrap_or(64),
                                    _ => 64,
                                };
                                let sh = 128 - bits as u32;
                                (((v << sh) as i128) >> sh).to_string()
                            } else {
                                v.to_string()
                            };
                            format!("[{},{}]", txt, t.as_usize())
                        })
                        .collect();
                    format!(
                        "\"t\":\"switch\",\"o\":{},\"oty\":{},\"targets\":{},\"otherwise\":{}",
                        self.operand(discr),
                        dt,
                        arr(&v),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "\"t\":\"return\"".into(),
                TerminatorKind::Unreachable => "\"t\":\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let pt = self.ty(pt);
                    format!(
                        "\"t\":\"drop\",\"p\":{},\"pty\":{},\"to\":{}",
                        self.place(place),
                        pt,
                        target.as_usize()
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dt = self.ty(dt);
                    let ats: Vec<String> =
                        args.iter().map(|x| { let t = x.node.ty(&b.local_decls, self.tcx); self.ty(t).to_string() }).collect();
                    // the trait method named at the call, before resolution
                    let mut named = "null".to_string();
                    if let Some((d, _)) = func.const_fn_def() {
                        named = q(&self.path(d));
                    }
                    format!(
                        "\"t\":\"call\",\"f\":{},\"named\":{},\"args\":{},\"atys\":{},\"d\":{},\"dty\":{},\"to\":{}",
                        f,
                        named,
                        arr(&a),
                        arr(&ats),
                        d,
                        dt,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::TailCall { .. } => "\"t\":\"tailcall\"".into(),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow Neg".into(),
                        AssertKind::DivisionByZero(_) => "div by zero".into(),
                        AssertKind::RemainderByZero(_) => "rem by zero".into(),
                        _ => "other".into(),
                    };
                    format!(
                        "\"t\":\"assert\",\"c\":{},\"exp\":{},\"msg\":{},\"to\":{}",
                        self.operand(cond),
                        expected,
                        q(&m),
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize())
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "\"t\":\"unwind\"".into()
                }
                _ => "\"t\":\"other\"".into(),
            };
            blocks.push(format!(
                "{{\"cl\":{},\"st\":{},\"term\":{{{},\"sp\":{}}}}}",
                bb.is_cleanup,
                arr(&st),
                ts,
                sp
            ));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", q(v.name.as_str()), self.place(p)));
            }
        }
        format!(
            "{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}",
            b.arg_count,
            b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            arr(&locals),
            arr(&names),
            arr(&blocks)
        )
    }
}

fn dump_mono(tcx: TyCtxt<'_>, out: &str) {
    let mut d = D::new(tcx, false);
    let mut roots = vec![];
    for ld in tcx.hir_body_owners() {
        let def = ld.to_def_id();
        if !matches!(tcx.def_kind(def), DefKind::Fn) {
            continue;
        }
        if tcx.generics_of(def).requires_monomorphization(tcx) {
            continue;
        }
        let i = Instance::mono(tcx, def);
        let id = d.inst(i);
        roots.push(format!("{}:{}", q(tcx.item_name(def).as_str()), id));
    }
    d.drain();
    let insts: Vec<String> = d.insts.iter().map(|s| s.clone().unwrap_or("null".into())).collect();
    let s = format!(
        "{{\"roots\":{{{}}},\"types\":[{}],\"statics\":[{}],\"insts\":[{}]}}\n",
        roots.join(","),
        d.types.join(",\n"),
        d.static_out.join(",\n"),
        insts.join(",\n")
    );
    std::fs::write(out, s).expect("write mono dump");
}

fn dump_poly(tcx: TyCtxt<'_>, out: &str) {
    let mut d = D::new(tcx, true);
    let mut fns = vec![];
    let mut seen = HashSet::new();
    for ld in tcx.hir_body_owners() {
        let def = ld.to_def_id();
        let dk = tcx.def_kind(def);
        if !seen.insert(def) {
            continue;
        }
        let kind = format!("{:?}", dk);
        d.env = TypingEnv::post_analysis(tcx, def);
        let body = match dk {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_mir_available(def) {
                    let b = tcx.instance_mir(InstanceKind::Item(def)).clone();
                    d.dump_body(&b)
                } else {
                    "null".into()
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                let b = tcx.mir_for_ctfe(def).clone();
                d.dump_body(&b)
            }
            _ => "null".into(),
        };
        let vis = match dk {
            DefKind::Fn | DefKind::AssocFn => format!("{:?}", tcx.visibility(def)),
            _ => "-".into(),
        };
        let reachable = tcx.effective_visibilities(()).is_reachable(ld);
        let exported = tcx.effective_visibilities(()).is_exported(ld);
        let mut sig = "null".to_string();
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let s = tcx.fn_sig(def).skip_binder().skip_binder();
            let ins: Vec<String> = s.inputs().iter().map(|t| d.ty(*t).to_string()).collect();
            let o = d.ty(s.output());
            sig = format!(
                "{{\"in\":{},\"out\":{},\"unsafe\":{},\"const\":{}}}",
                arr(&ins),
                o,
                s.safety().is_unsafe(),
                tcx.is_const_fn(def)
            );
        }
        let mut impl_of = "null".to_string();
        let mut derived = false;
        let mut trait_item = "null".to_string();
        if dk.is_assoc() {
            if let Some(im) = tcx.impl_of_assoc(def) {
                let t = tcx.type_of(im).skip_binder();
                impl_of = d.ty(t).to_string();
                derived = tcx.is_automatically_derived(im);
            }
            if let Some(t) = tcx.trait_item_of(def) {
                trait_item = q(&d.path(t));
            }
        }
        let is_test_cfg = false;
        let _ = is_test_cfg;
        fns.push(format!(
            "{{\"path\":{},\"kind\":{},\"vis\":{},\"reachable\":{},\"exported\":{},\"sig\":{},\"impl\":{},\"derived\":{},\"trait_item\":{},\"span\":{},\"body\":{}}}",
            q(&d.path(def)), q(&kind), q(&vis), reachable, exported, sig, impl_of, derived, trait_item,
            d.span(tcx.def_span(def)), body
        ));
    }
    // ADTs, statics, unsafe
    let mut adts = vec![];
    let mut statics = vec![];
    let mut impls = vec![];
    for id in tcx.hir_free_items() {
        let def = id.owner_id.to_def_id();
        match tcx.def_kind(def) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                d.env = TypingEnv::post_analysis(tcx, def);
                let tid = d.ty(t);
                let exported = tcx.effective_visibilities(()).is_exported(id.owner_id.def_id);
                let reachable = tcx.effective_visibilities(()).is_reachable(id.owner_id.def_id);
                let freeze = t.is_freeze(tcx, d.env);
                adts.push(format!(
                    "{{\"path\":{},\"ty\":{},\"exported\":{},\"reachable\":{},\"freeze\":{},\"span\":{}}}",
                    q(&d.path(def)),
                    tid,
                    exported,
                    reachable,
                    freeze,
                    d.span(tcx.def_span(def))
                ));
            }
            DefKind::Static { .. } => {
                let t = tcx.type_of(def).skip_binder();
                d.env = TypingEnv::post_analysis(tcx, def);
                let tid = d.ty(t);
                statics.push(format!(
                    "{{\"path\":{},\"ty\":{},\"mut\":{},\"freeze\":{},\"span\":{}}}",
                    q(&d.path(def)),
                    tid,
                    tcx.is_mutable_static(def),
                    t.is_freeze(tcx, d.env),
                    d.span(tcx.def_span(def))
                ));
            }
            DefKind::Impl { of_trait } => {
                let t = tcx.type_of(def).skip_binder();
                d.env = TypingEnv::post_analysis(tcx, def);
                let tid = d.ty(t);
                let tr = if of_trait {
                    q(&rustc_middle::ty::print::with_no_trimmed_paths!(
                        tcx.impl_trait_ref(def).skip_binder().to_string()
                    ))
                } else {
                    "null".into()
                };
                impls.push(format!(
                    "{{\"self\":{},\"trait\":{},\"derived\":{},\"unsafe\":{},\"span\":{}}}",
                    tid,
                    tr,
                    tcx.is_automatically_derived(def),
                    of_trait && tcx.impl_trait_header(def).safety.is_unsafe(),
                    d.span(tcx.def_span(def))
                ));
            }
            _ => {}
        }
    }
    let s = format!(
        "{{\"crate\":{},\"types\":[{}],\"fns\":[{}],\"adts\":[{}],\"statics\":[{}],\"impls\":[{}]}}\n",
        q(tcx.crate_name(LOCAL_CRATE).as_str()),
        d.types.join(",\n"),
        fns.join(",\n"),
        adts.join(",\n"),
        statics.join(",\n"),
        impls.join(",\n")
    );
    std::fs::write(out, s).expect("write poly dump");
}

struct Cb {
    mono: Option<String>,
    poly: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(p) = &self.mono {
            dump_mono(tcx, p);
        }
        if let Some(p) = &self.poly {
            dump_poly(tcx, p);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv = [wrapper, rustc, args..]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(0);
    }
    let mut cname = String::new();
    let mut is_build = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" {
            cname = args.get(i + 1).cloned().unwrap_or_default();
        }
        if a == "--test" {
            is_build = true;
        }
    }
    let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let has = |v: &str| {
        std::env::var(v)
            .map(|s| s.split(',').any(|x| x == cname))
            .unwrap_or(false)
    };
    let mut cb = Cb { mono: None, poly: None };
    if !dir.is_empty() && !is_build {
        if has("MIRDUMP_ROOTS") {
            cb.mono = Some(format!("{}/{}.mono.json", dir, cname));
        }
        if has("MIRDUMP_POKER") {
            cb.poly = Some(format!("{}/{}.poly.json", dir, cname));
        }
    }
    std::process::exit(if rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut cb)).is_ok() { 0 } else { 1 });
}
