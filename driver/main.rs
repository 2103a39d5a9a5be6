// MIR extractor: a rustc driver that, run as RUSTC_WORKSPACE_WRAPPER under
// `cargo +nightly check`, writes the type-checked, callee-resolved MIR of every
// function of the crate (plus the monomorphic instances of local generic
// functions that are reachable from them) as JSON to $VP_DUMP_DIR/<crate>.json.
// It executes nothing of the crate under analysis.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::{
    self, AggregateKind, BinOp, Body, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, bool)>,
    seen: HashSet<Instance<'tcx>>,
    promoted_out: Vec<String>,
    promoted_seen: HashSet<String>,
    static_out: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let t = self.tcx;
        ty::print::with_no_trimmed_paths!(t.def_path_str(d))
    }

    fn key(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        // unique across crates: the def path with disambiguators + erased args
        let t = self.tcx;
        let args = t.erase_and_anonymize_regions(args);
        let mut s = format!(
            "{}{}",
            t.crate_name(d.krate),
            t.def_path(d).to_string_no_crate_verbose()
        );
        let a: Vec<String> = args
            .iter()
            .filter(|g| g.as_region().is_none())
            .map(|g| ty::print::with_no_trimmed_paths!(format!("{}", g)))
            .collect();
        if !a.is_empty() {
            s.push_str(&format!("<{}>", a.join(",")));
        }
        s
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let f = |sp: Span| {
            let l = sm.lookup_char_pos(sp.lo());
            format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
        };
        let a = f(sp);
        let b = f(sp.source_callsite());
        if a == b {
            a
        } else {
            format!("{}@{}", b, a)
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(String::new());
        let s = ty::print::with_no_trimmed_paths!(format!("{}", t));
        let extra = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Float(i) => format!("\"k\":\"float\",\"bits\":{}", i.bit_width()),
            ty::Adt(def, args) => {
                let mut a = vec![];
                for g in args.iter() {
                    if let Some(t) = g.as_type() {
                        a.push(self.ty(t).to_string());
                    }
                }
                let kind = if def.is_struct() {
                    "struct"
                } else if def.is_enum() {
                    "enum"
                } else {
                    "union"
                };
                let mut vs = vec![];
                // field tables for local types only (std types: modelled by name)
                let local = def.did().is_local();
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        if local {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let ft = self
                                .tcx
                                .try_normalize_erasing_regions(
                                    TypingEnv::fully_monomorphized(),
                                    ty::Unnormalized::new_wip(ft),
                                )
                                .unwrap_or(ft);
                            let vis = f.vis.is_public();
                            fs.push(format!(
                                "[{},{},{}]",
                                esc(f.name.as_str()),
                                self.ty(ft),
                                vis
                            ));
                        } else {
                            fs.push(format!("[{}]", esc(f.name.as_str())));
                        }
                    }
                    vs.push(format!(
                        "{{\"n\":{},\"f\":[{}]}}",
                        esc(v.name.as_str()),
                        fs.join(",")
                    ));
                }
                format!(
                    "\"k\":\"adt\",\"adt\":{},\"path\":{},\"local\":{},\"args\":[{}],\"vars\":[{}]",
                    esc(kind),
                    esc(&self.path(def.did())),
                    local,
                    a.join(","),
                    vs.join(",")
                )
            }
            ty::Ref(_, t, m) => format!("\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), self.ty(t)),
            ty::RawPtr(t, m) => format!("\"k\":\"ptr\",\"mut\":{},\"t\":{}", m.is_mut(), self.ty(t)),
            ty::Slice(t) => format!("\"k\":\"slice\",\"t\":{}", self.ty(t)),
            ty::Array(t, n) => {
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into());
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(t), n)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":[{}]", v.join(","))
            }
            ty::Closure(d, args) => {
                let key = self.key(d, args);
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t).to_string())
                    .collect();
                format!("\"k\":\"closure\",\"key\":{},\"ups\":[{}]", esc(&key), ups.join(","))
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                format!("\"k\":\"fndef\",\"path\":{},\"key\":{}", esc(&self.path(d)), esc(&self.key(d, args)))
            }
            ty::Param(_) => "\"k\":\"param\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[id] = format!("{{\"s\":{},{}}}", esc(&s), extra);
        id
    }
}

struct BodyCx<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    inst: Instance<'tcx>,
    env: TypingEnv<'tcx>,
    body: &'a Body<'tcx>,
    mono: bool,
    bkey: String,
}

impl<'a, 'tcx> BodyCx<'a, 'tcx> {
    fn subst<T>(&self, v: T) -> T
    where
        T: ty::TypeFoldable<TyCtxt<'tcx>> + Copy,
    {
        let tcx = self.cx.tcx;
        let v1 = if self.mono {
            self.inst.instantiate_mir(tcx, EarlyBinder::bind(tcx, v))
        } else {
            v
        };
        match tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(v1)) {
            Ok(x) => x,
            Err(_) => tcx.erase_and_anonymize_regions(v1),
        }
    }

    fn place_ty(&self, p: &Place<'tcx>) -> Ty<'tcx> {
        self.subst(p.ty(&self.body.local_decls, self.cx.tcx).ty)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut out = vec![];
        let mut pt = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, _) => {
                    let t = self.subst(pt.ty);
                    let name = match *t.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => def.variant(rustc_abi::VariantIdx::from_u32(0)),
                                None => def.non_enum_variant(),
                            };
                            v.fields[i].name.as_str().to_string()
                        }
                        _ => i.as_u32().to_string(),
                    };
                    format!("[\".\",{},{}]", i.as_u32(), esc(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"v\",{},{}]",
                    v.as_u32(),
                    esc(&n.map(|n| n.as_str().to_string()).unwrap_or_default())
                ),
                _ => "[\"?\"]".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        format!("{{\"l\":{},\"p\":[{}]}}", p.local.as_u32(), out.join(","))
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut s = format!(
            "\"path\":{},\"key\":{}",
            esc(&self.cx.path(d)),
            esc(&self.cx.key(d, args))
        );
        let targs: Vec<String> = args
            .iter()
            .filter_map(|g| g.as_type())
            .map(|t| self.cx.ty(t).to_string())
            .collect();
        let _ = write!(s, ",\"targs\":[{}]", targs.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(
                s,
                ",\"trait\":{},\"method\":{}",
                esc(&self.cx.path(tr)),
                esc(tcx.item_name(d).as_str())
            );
            if args.len() > 0 {
                if let Some(st) = args.get(0).and_then(|g| g.as_type()) {
                    let _ = write!(s, ",\"self\":{}", self.cx.ty(st));
                }
            }
        }
        let dk = tcx.def_kind(d);
        if matches!(dk, DefKind::Ctor(..)) {
            let _ = write!(s, ",\"ctor\":true");
            return format!("{{{}}}", s);
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                let rd = inst.def_id();
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(..) => "intrinsic",
                    _ => "other",
                };
                let _ = write!(
                    s,
                    ",\"r\":{{\"path\":{},\"key\":{},\"kind\":{},\"local\":{}}}",
                    esc(&self.cx.path(rd)),
                    esc(&self.cx.key(rd, inst.args)),
                    esc(kind),
                    rd.is_local()
                );
                if rd.is_local() {
                    if let InstanceKind::Item(_) = inst.def {
                        self.cx.queue.push_back((inst, self.env, true));
                    }
                }
            }
        }
        format!("{{{}}}", s)
    }

    fn konst(&mut self, c: &mir::ConstOperand<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let k = self.subst(c.const_);
        let t = k.ty();
        let tid = self.cx.ty(t);
        let mut s = format!("\"k\":\"const\",\"ty\":{}", tid);
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().unwrap();
            let c = self.callee(d, args);
            let _ = write!(s, ",\"fn\":{}", c);
            return format!("{{{}}}", s);
        }
        if let Const::Unevaluated(u, _) = k {
            if let Some(p) = u.promoted {
                let key = format!("{}#{}", self.bkey, p.as_u32());
                let _ = write!(s, ",\"promoted\":{}", esc(&key));
                if u.def == self.inst.def_id() && !self.cx.promoted_seen.contains(&key) {
                    self.cx.promoted_seen.insert(key.clone());
                    let proms = tcx.promoted_mir(u.def);
                    let b = &proms[p];
                    let j = {
                        let mut sub = BodyCx {
                            cx: self.cx,
                            inst: self.inst,
                            env: self.env,
                            body: b,
                            mono: self.mono,
                            bkey: key.clone(),
                        };
                        sub.body_json()
                    };
                    self.cx
                        .promoted_out
                        .push(format!("{{\"key\":{},\"promoted\":true,{}}}", esc(&key), j));
                }
                return format!("{{{}}}", s);
            }
            let _ = write!(s, ",\"named\":{}", esc(&self.cx.path(u.def)));
        }
        match k.eval(tcx, self.env, c.span) {
            Ok(v) => {
                let _ = write!(s, ",\"val\":{}", self.constval(v, t));
            }
            Err(_) => {}
        }
        if let Const::Ty(_, ct) = k {
            let _ = write!(s, ",\"ct\":{}", esc(&format!("{}", ct)));
        }
        format!("{{{}}}", s)
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.cx.tcx;
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits_unchecked();
                match *t.kind() {
                    ty::Int(_) => {
                        let sz = i.size().bits();
                        let sh = 128 - sz;
                        format!("[\"i\",\"{}\"]", ((bits << sh) as i128) >> sh)
                    }
                    ty::Uint(_) => format!("[\"i\",\"{}\"]", bits),
                    ty::Bool => format!("[\"b\",{}]", bits != 0),
                    ty::Char => format!("[\"c\",{}]", bits),
                    ty::Float(ty::FloatTy::F32) => {
                        format!("[\"f\",{}]", esc(&format!("{:?}", f32::from_bits(bits as u32) as f64)))
                    }
                    ty::Float(ty::FloatTy::F64) => {
                        format!("[\"f\",{}]", esc(&format!("{:?}", f64::from_bits(bits as u64))))
                    }
                    _ => format!("[\"bits\",\"{}\"]", bits),
                }
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                // &'static T: report the bytes of scalar arrays / statics by path
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => format!("[\"static\",{}]", esc(&self.cx.path(d))),
                    GlobalAlloc::Memory(a) => {
                        let _ = off;
                        let a = a.inner();
                        let n = a.len();
                        let has_ptr = !a.provenance().ptrs().is_empty();
                        if has_ptr || n > 64 {
                            "[\"ptr\"]".to_string()
                        } else {
                            let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                            format!("[\"bytes\",{:?}]", bytes)
                        }
                    }
                    _ => "[\"ptr\"]".to_string(),
                }
            }
            ConstValue::ZeroSized => "[\"zst\"]".to_string(),
            ConstValue::Slice { .. } => match v.try_get_slice_bytes_for_diagnostics(tcx) {
                Some(b) => match std::str::from_utf8(b) {
                    Ok(x) => format!("[\"s\",{}]", esc(x)),
                    Err(_) => "[\"bytes\"]".to_string(),
                },
                None => "[\"?\"]".to_string(),
            },
            ConstValue::Indirect { .. } => "[\"indirect\"]".to_string(),
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"pl\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"pl\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => "{\"k\":\"rtcheck\"}".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = self.subst(*n);
                let n = n
                    .try_to_target_usize(self.cx.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::RawPtr(k, p) => format!(
                "[\"rawptr\",{},{}]",
                self.place(p),
                matches!(k, mir::RawPtrKind::Mut)
            ),
            Rvalue::Cast(k, o, t) => {
                let t = self.subst(*t);
                let from = self.subst(o.ty(&self.body.local_decls, self.cx.tcx));
                // reify closures / function items into fn pointers or dyn
                if let ty::Closure(d, args) = *from.kind() {
                    self.enqueue_closure(d, args);
                }
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{:?}", k)),
                    self.operand(o),
                    self.cx.ty(from),
                    self.cx.ty(t)
                )
            }
            Rvalue::BinaryOp(op, b) => {
                let t = self.subst(b.0.ty(&self.body.local_decls, self.cx.tcx));
                let n = match op {
                    BinOp::AddUnchecked => "Add".to_string(),
                    BinOp::SubUnchecked => "Sub".to_string(),
                    BinOp::MulUnchecked => "Mul".to_string(),
                    BinOp::ShlUnchecked => "Shl".to_string(),
                    BinOp::ShrUnchecked => "Shr".to_string(),
                    o => format!("{:?}", o),
                };
                format!(
                    "[\"bin\",{},{},{},{}]",
                    esc(&n),
                    self.operand(&b.0),
                    self.operand(&b.1),
                    self.cx.ty(t)
                )
            }
            Rvalue::UnaryOp(op, o) => {
                let t = self.subst(o.ty(&self.body.local_decls, self.cx.tcx));
                format!(
                    "[\"un\",{},{},{}]",
                    esc(&format!("{:?}", op)),
                    self.operand(o),
                    self.cx.ty(t)
                )
            }
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(p);
                format!("[\"discr\",{},{}]", self.place(p), self.cx.ty(t))
            }
            Rvalue::Aggregate(k, ops) => {
                let head = match **k {
                    AggregateKind::Array(t) => {
                        let t = self.subst(t);
                        format!("[\"array\",{}]", self.cx.ty(t))
                    }
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let args = self.subst(args);
                        let def = self.cx.tcx.adt_def(d);
                        let t = Ty::new_adt(self.cx.tcx, def, args);
                        let var = def.variant(v);
                        let names: Vec<String> =
                            var.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "[\"adt\",{},{},{},{},[{}]]",
                            esc(&self.cx.path(d)),
                            v.as_u32(),
                            esc(var.name.as_str()),
                            self.cx.ty(t),
                            names.join(",")
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = self.subst(args);
                        self.enqueue_closure(d, args);
                        format!("[\"closure\",{}]", esc(&self.cx.key(d, args)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                format!("[\"agg\",{},[{}]]", head, v.join(","))
            }
            Rvalue::CopyForDeref(p) => {
                format!("[\"use\",{{\"k\":\"copy\",\"pl\":{}}}]", self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", self.place(p), m.is_mut()),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn enqueue_closure(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) {
        if d.is_local() {
            let inst = Instance::new_raw(d, args);
            self.cx.queue.push_back((inst, self.env, true));
        }
    }

    fn body_json(&mut self) -> String {
        let body = self.body;
        let mut s = String::new();
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            let t = self.subst(d.ty);
            locals.push(self.cx.ty(t).to_string());
        }
        // argument names (diagnostics only)
        let mut names: Vec<String> = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_u32(), esc(v.name.as_str())));
                }
            }
        }
        let _ = write!(
            s,
            "\"args\":{},\"locals\":[{}],\"names\":[{}],\"span\":{},\"blocks\":[",
            body.arg_count,
            locals.join(","),
            names.join(","),
            esc(&self.cx.span(body.span))
        );
        let mut first = true;
        for bb in body.basic_blocks.iter() {
            if !first {
                s.push(',');
            }
            first = false;
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        st.push(format!(
                            "[\"=\",{},{},{}]",
                            p,
                            r,
                            esc(&self.cx.span(x.source_info.span))
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"sd\",{},{}]", p, variant_index.as_u32()));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{}]", esc(&format!("{:?}", i))));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_u32())),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = esc(&self.cx.span(term.source_info.span));
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = self.subst(discr.ty(&body.local_decls, self.cx.tcx));
                    let d = self.operand(discr);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32()))
                        .collect();
                    format!(
                        "[\"switch\",{},[{}],{},{},{}]",
                        d,
                        v.join(","),
                        targets.otherwise().as_u32(),
                        self.cx.ty(ty),
                        sp
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume => "[\"resume\"]".to_string(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".to_string(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = self.place_ty(place);
                    let u = match unwind {
                        mir::UnwindAction::Cleanup(b) => b.as_u32().to_string(),
                        _ => "null".into(),
                    };
                    format!(
                        "[\"drop\",{},{},{},{},{}]",
                        self.place(place),
                        self.cx.ty(t),
                        target.as_u32(),
                        sp,
                        u
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    // argument types may carry closures that std adapters will call
                    for x in args.iter() {
                        let t = self.subst(x.node.ty(&body.local_decls, self.cx.tcx));
                        if let ty::Closure(d, ar) = *t.kind() {
                            self.enqueue_closure(d, ar);
                        }
                    }
                    let u = match unwind {
                        mir::UnwindAction::Cleanup(b) => b.as_u32().to_string(),
                        _ => "null".into(),
                    };
                    let dt = self.place_ty(destination);
                    format!(
                        "[\"call\",{},[{}],{},{},{},{},{}]",
                        f,
                        a.join(","),
                        self.place(destination),
                        target.map(|b| b.as_u32().to_string()).unwrap_or("null".into()),
                        sp,
                        u,
                        self.cx.ty(dt)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let k = format!("{:?}", msg);
                    let k = if k.contains("index out of bounds") {
                        "bounds"
                    } else if k.contains("divide by zero") || k.contains("remainder") {
                        "div"
                    } else {
                        "other"
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        c,
                        expected,
                        esc(k),
                        target.as_u32(),
                        sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                o => format!("[\"other\",{}]", esc(&format!("{:?}", o))),
            };
            let _ = write!(
                s,
                "{{\"c\":{},\"s\":[{}],\"t\":{}}}",
                bb.is_cleanup,
                st.join(","),
                t
            );
        }
        s.push(']');
        s
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> Option<String> {
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ids: HashMap::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        promoted_out: vec![],
        promoted_seen: HashSet::new(),
        static_out: vec![],
    };
    let mut fns = vec![];
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        if !tcx.is_mir_available(d) {
            continue;
        }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let env = TypingEnv::post_analysis(tcx, d);
        let inst = Instance::new_raw(d, args);
        cx.queue.push_back((inst, env, true));
    }
    let mut n = 0;
    while let Some((inst, env, mono)) = cx.queue.pop_front() {
        let inst = Instance {
            def: inst.def,
            args: tcx.erase_and_anonymize_regions(inst.args),
        };
        if !cx.seen.insert(inst) {
            continue;
        }
        n += 1;
        if n > 20000 {
            break;
        }
        let d = inst.def_id();
        if !tcx.is_mir_available(d) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let key = cx.key(d, inst.args);
        let dk = tcx.def_kind(d);
        let mut meta = format!("\"key\":{},\"path\":{}", esc(&key), esc(&cx.path(d)));
        let is_closure = tcx.is_closure_like(d);
        let _ = write!(meta, ",\"closure\":{}", is_closure);
        if is_closure {
            let _ = write!(meta, ",\"parent\":{}", esc(&cx.path(tcx.typeck_root_def_id(d))));
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(d);
            let _ = write!(meta, ",\"pub\":{}", vis.is_public());
            if let Some(ld) = d.as_local() {
                let _ = write!(
                    meta,
                    ",\"reach\":{}",
                    tcx.effective_visibilities(()).is_reachable(ld)
                );
            }
            let _ = write!(meta, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
            let generic_ids = ty::GenericArgs::identity_for_item(tcx, d);
            let ident = tcx.erase_and_anonymize_regions(generic_ids) == inst.args;
            let _ = write!(meta, ",\"ident\":{}", ident);
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let st = cx.ty(st);
                let _ = write!(meta, ",\"self\":{}", st);
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let ta: Vec<String> = tr
                        .args
                        .iter()
                        .skip(1)
                        .filter_map(|g| g.as_type())
                        .map(|t| cx.ty(t).to_string())
                        .collect();
                    let _ = write!(
                        meta,
                        ",\"trait\":{},\"trargs\":[{}]",
                        esc(&cx.path(tr.def_id)),
                        ta.join(",")
                    );
                }
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(meta, ",\"deftrait\":{}", esc(&cx.path(tr)));
            }
        }
        let j = {
            let mut b = BodyCx {
                cx: &mut cx,
                inst,
                env,
                body,
                mono,
                bkey: key.clone(),
            };
            b.body_json()
        };
        fns.push(format!("{{{},{}}}", meta, j));
    }
    // ADTs of the crate with their fields (and derive-visible attributes are not needed)
    let mut adts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            adts.push(cx.ty(t).to_string());
        }
    }
    // trait impl table
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if let DefKind::Impl { .. } = tcx.def_kind(d) {
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let st = cx.ty(st);
            let tr = tcx
                .impl_opt_trait_ref(d)
                .map(|t| cx.path(t.skip_binder().def_id))
                .unwrap_or_default();
            let safety = tcx.impl_opt_trait_ref(d).is_some()
                && tcx.impl_trait_header(d).safety.is_unsafe();
            impls.push(format!(
                "{{\"self\":{},\"trait\":{},\"unsafe\":{},\"span\":{}}}",
                st,
                esc(&tr),
                safety,
                esc(&cx.span(tcx.def_span(d)))
            ));
        }
    }
    let _ = &cx.static_out;
    let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
    Some(format!(
        "{{\"crate\":{},\"fns\":[\n{}\n],\"promoted\":[\n{}\n],\"adts\":[{}],\"impls\":[\n{}\n],\"types\":[\n{}\n]}}\n",
        esc(&name),
        fns.join(",\n"),
        cx.promoted_out.join(",\n"),
        adts.join(","),
        impls.join(",\n"),
        cx.types.join(",\n")
    ))
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("VP_DUMP_DIR") {
            let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
            if name != "build_script_build" {
                if let Some(s) = dump(tcx) {
                    let p = format!("{}/{}.json", dir, name);
                    let _ = std::fs::create_dir_all(&dir);
                    let t = format!("{}.{}.tmp", p, std::process::id());
                    std::fs::write(&t, s).expect("write dump");
                    std::fs::rename(&t, p).expect("rename dump");
                }
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER calls us as: driver <rustc> args...
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=off".into());
    args.push("-Cdebug-assertions=off".into());
    args.push("-Awarnings".into());
    let code = rustc_driver_impl::catch_with_exit_code(|| {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb)
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
