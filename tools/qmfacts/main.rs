// qmfacts: a rustc driver that type-checks a crate and dumps, as JSON, the
// facts the property rules are decided on: every MIR body with resolved
// callees, every type definition, trait, impl, static and function signature.
// Nothing is executed.
//
// Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path. Only the
// crate named by QMFACTS_CRATE is dumped (to QMFACTS_OUT); every other
// invocation behaves exactly as rustc.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::HashMap;
use std::fmt::Write as _;

/// Minimal JSON value
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}

impl J {
    fn s<T: Into<String>>(t: T) -> J {
        J::S(t.into())
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{}", i).unwrap(),
            J::S(s) => quote(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    quote(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(",\n");
                    }
                    quote(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
}

/// the length of the array if t is a reference to an array of bytes
fn byte_array<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<usize> {
    if let ty::Ref(_, a, _) = t.kind() {
        if let ty::Array(e, n) = a.kind() {
            if *e == tcx.types.u8 {
                return n.try_to_target_usize(tcx).map(|n| n as usize);
            }
        }
    }
    None
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_crate_prefix!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

fn ty_str(t: Ty<'_>) -> String {
    with_crate_prefix!(with_no_trimmed_paths!(format!("{}", t)))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.ty_id(t) as i128)
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = Vec::new();
        for a in args.iter() {
            if let GenericArgKind::Type(t) = a.kind() {
                v.push(self.ty(t));
            }
        }
        J::A(v)
    }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.ty_ids.insert(t, i);
        self.ty_out.push(J::Null);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(ty_str(t)))];
        match *t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::s(path(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("args", self.args(args)));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("args", J::A(vec![self.ty(inner)])));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("args", J::A(vec![self.ty(inner)])));
            }
            ty::Slice(inner) => {
                o.push(("k", J::s("slice")));
                o.push(("args", J::A(vec![self.ty(inner)])));
            }
            ty::Array(inner, n) => {
                o.push(("k", J::s("array")));
                o.push(("args", J::A(vec![self.ty(inner)])));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o.push(("len", J::I(n as i128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let mut v = Vec::new();
                for x in ts.iter() {
                    v.push(self.ty(x));
                }
                o.push(("args", J::A(v)));
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", J::s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("path", J::s(path(tcx, p))));
                    o.push(("local", J::B(p.is_local())));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("path", J::s(path(tcx, d))));
                let _ = args;
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                o.push(("path", J::s(path(tcx, d))));
                o.push(("local", J::B(d.is_local())));
                let _ = args;
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("path", J::s(p.name.to_string())));
            }
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Int(_) => o.push(("k", J::s("int"))),
            ty::Uint(_) => o.push(("k", J::s("uint"))),
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Foreign(_) => o.push(("k", J::s("foreign"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.ty_out[i] = J::O(o);
        i
    }

    fn span(&self, s: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::s(format!("{}:{}", file, lo.line))
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = Vec::new();
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => v.push(J::s("*")),
                ProjectionElem::Field(f, fty) => {
                    let mut o = vec![("f", J::I(f.as_usize() as i128))];
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if def.is_enum() || def.is_struct() || def.is_union() {
                            let fd = &def.variant(vi).fields[f];
                            o.push(("n", J::s(fd.name.to_string())));
                            o.push(("of", J::s(path(tcx, def.did()))));
                        }
                    } else if let ty::Closure(d, _) = pty.ty.kind() {
                        o.push(("of", J::s(path(tcx, *d))));
                    }
                    o.push(("t", self.ty(fty)));
                    v.push(J::O(o));
                }
                ProjectionElem::Index(l) => {
                    v.push(J::O(vec![("i", J::I(l.as_usize() as i128))]))
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    v.push(J::O(vec![
                        ("ci", J::I(offset as i128)),
                        ("min", J::I(min_length as i128)),
                        ("end", J::B(from_end)),
                    ]))
                }
                ProjectionElem::Subslice { from, to, from_end } => v.push(J::O(vec![
                    ("sub", J::I(from as i128)),
                    ("to", J::I(to as i128)),
                    ("end", J::B(from_end)),
                ])),
                ProjectionElem::Downcast(name, vi) => {
                    let n = match name {
                        Some(n) => n.to_string(),
                        None => {
                            if let ty::Adt(def, _) = pty.ty.kind() {
                                def.variant(vi).name.to_string()
                            } else {
                                format!("{}", vi.as_usize())
                            }
                        }
                    };
                    v.push(J::O(vec![("v", J::s(n)), ("vi", J::I(vi.as_usize() as i128))]));
                }
                _ => v.push(J::s("?")),
            }
            pty = pty.projection_ty(tcx, e);
        }
        J::O(vec![("l", J::I(p.local.as_usize() as i128)), ("p", J::A(v))])
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                J::O(vec![("o", J::s("copy")), ("pl", self.place(body, p))])
            }
            Operand::Move(p) => {
                J::O(vec![("o", J::s("move")), ("pl", self.place(body, p))])
            }
            Operand::Constant(c) => self.constant(body, c),
            _ => J::O(vec![("o", J::s("rtcheck"))]),
        }
    }

    fn callee(&mut self, body: &Body<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let env = body.typing_env(tcx);
        let mut o = vec![
            ("path", J::s(path(tcx, d))),
            ("local", J::B(d.is_local())),
            ("args", self.args(args)),
        ];
        if let Some(assoc) = tcx.opt_associated_item(d) {
            o.push(("method", J::s(assoc.name().to_string())));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(path(tcx, tr))));
            o.push(("trait_local", J::B(tr.is_local())));
        }
        let is_fn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn);
        if is_fn {
            let args2 = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args2) {
                match inst.def {
                    ty::InstanceKind::Item(id) => {
                        o.push(("res", J::s(path(tcx, id))));
                        o.push(("res_local", J::B(id.is_local())));
                        o.push(("res_args", self.args(inst.args)));
                    }
                    ty::InstanceKind::Virtual(id, _) => {
                        o.push(("virtual", J::s(path(tcx, id))));
                    }
                    _ => o.push(("shim", J::B(true))),
                }
            }
        }
        J::O(o)
    }

    fn constant(&mut self, body: &Body<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let env = body.typing_env(tcx);
        let t = c.const_.ty();
        let mut o = vec![("o", J::s("const")), ("t", self.ty(t))];
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            o.push(("fn", self.callee(body, d, args)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_usize() as i128)));
                return J::O(o);
            }
            o.push(("named", J::s(path(tcx, u.def))));
        }
        if c.const_.has_non_region_param() {
            o.push(("generic", J::B(true)));
            return J::O(o);
        }
        let val = match c.const_.eval(tcx, env, c.span) {
            Ok(v) => v,
            Err(_) => return J::O(o),
        };
        self.const_value(t, val, &mut o);
        J::O(o)
    }

    fn const_value(&mut self, t: Ty<'tcx>, val: ConstValue, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match val {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => o.push(("bool", J::B(bits != 0))),
                    ty::Int(_) => {
                        let sz = i.size();
                        o.push(("int", J::I(sz.sign_extend(bits) as i128)))
                    }
                    ty::Uint(_) => o.push(("int", J::I(bits as i128))),
                    ty::Char => o.push(("int", J::I(bits as i128))),
                    ty::Float(ty::FloatTy::F64) => {
                        o.push(("f64", J::s(format!("{:?}", f64::from_bits(bits as u64)))))
                    }
                    _ => o.push(("bits", J::s(format!("{}", bits)))),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => o.push(("static", J::s(path(tcx, d)))),
                    GlobalAlloc::Function { instance } => {
                        o.push(("fnptr", J::s(path(tcx, instance.def_id()))))
                    }
                    GlobalAlloc::Memory(m) if byte_array(tcx, t).is_some() => {
                        let (a, n) = (off.bytes_usize(), byte_array(tcx, t).unwrap());
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(a..a + n);
                        o.push(("bytes", J::s(b.iter().map(|x| format!("{:02x}", x)).collect::<String>())));
                    }
                    _ => o.push(("ptr", J::B(true))),
                }
            }
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Slice { .. } => {
                if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                    o.push(("str", J::s(String::from_utf8_lossy(b).into_owned())));
                }
            }
            ConstValue::Indirect { .. } => o.push(("indirect", J::B(true))),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(op, _) => J::O(vec![("r", J::s("use")), ("a", self.operand(body, op))]),
            Rvalue::Repeat(op, n) => {
                let mut o = vec![("r", J::s("repeat")), ("a", self.operand(body, op))];
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o.push(("n", J::I(n as i128)));
                }
                J::O(o)
            }
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", J::s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("pl", self.place(body, p)),
            ]),
            Rvalue::RawPtr(k, p) => J::O(vec![
                ("r", J::s("ref")),
                ("raw", J::B(true)),
                ("mut", J::B(matches!(k, RawPtrKind::Mut))),
                ("pl", self.place(body, p)),
            ]),
            Rvalue::ThreadLocalRef(d) => {
                J::O(vec![("r", J::s("tls")), ("path", J::s(path(tcx, *d)))])
            }
            Rvalue::Cast(k, op, t) => {
                let from = op.ty(&body.local_decls, tcx);
                J::O(vec![
                    ("r", J::s("cast")),
                    ("k", J::s(format!("{:?}", k))),
                    ("a", self.operand(body, op)),
                    ("from", self.ty(from)),
                    ("t", self.ty(*t)),
                ])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, tcx);
                J::O(vec![
                    ("r", J::s("bin")),
                    ("op", J::s(format!("{:?}", b))),
                    ("a", self.operand(body, &ops.0)),
                    ("b", self.operand(body, &ops.1)),
                    ("t", self.ty(t)),
                ])
            }
            Rvalue::UnaryOp(u, op) => J::O(vec![
                ("r", J::s("un")),
                ("op", J::s(format!("{:?}", u))),
                ("a", self.operand(body, op)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let mut o = vec![
                    ("r", J::s("discr")),
                    ("pl", self.place(body, p)),
                    ("t", self.ty(t)),
                ];
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        let mut v = Vec::new();
                        for (i, d) in def.discriminants(tcx) {
                            v.push(J::A(vec![
                                J::I(d.val as i128),
                                J::s(def.variant(i).name.to_string()),
                            ]));
                        }
                        o.push(("variants", J::A(v)));
                    }
                }
                J::O(o)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("r", J::s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        o.push(("k", J::s("array")));
                        o.push(("t", self.ty(*t)));
                    }
                    AggregateKind::Tuple => o.push(("k", J::s("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let def = tcx.adt_def(*d);
                        o.push(("k", J::s("adt")));
                        o.push(("path", J::s(path(tcx, *d))));
                        let var = def.variant(*vi);
                        if def.is_enum() {
                            o.push(("v", J::s(var.name.to_string())));
                        }
                        o.push((
                            "names",
                            J::A(var.fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                        ));
                        o.push(("args", self.args(args)));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("k", J::s("closure")));
                        o.push(("path", J::s(path(tcx, *d))));
                    }
                    AggregateKind::RawPtr(..) => o.push(("k", J::s("rawptr"))),
                    _ => o.push(("k", J::s("other"))),
                }
                let mut v = Vec::new();
                for op in ops.iter() {
                    v.push(self.operand(body, op));
                }
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("r", J::s("use")),
                (
                    "a",
                    J::O(vec![("o", J::s("copy")), ("pl", self.place(body, p))]),
                ),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("r", J::s("ref")),
                ("mut", J::B(m.is_mut())),
                ("pl", self.place(body, p)),
            ]),
            Rvalue::WrapUnsafeBinder(op, _) => {
                J::O(vec![("r", J::s("use")), ("a", self.operand(body, op))])
            }
        }
    }

    fn unwind(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::I(b.as_usize() as i128),
            _ => J::Null,
        }
    }

    fn body(&mut self, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = Vec::new();
        for d in body.local_decls.iter() {
            locals.push(self.ty(d.ty));
        }
        let mut names = Vec::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![J::s(v.name.to_string()), self.place(body, &p)]));
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut stmts = Vec::new();
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(a) => stmts.push(J::O(vec![
                        ("pl", self.place(body, &a.0)),
                        ("rv", self.rvalue(body, &a.1)),
                        ("sp", self.span(s.source_info.span)),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        stmts.push(J::O(vec![
                            ("setd", self.place(body, place)),
                            ("vi", J::I(variant_index.as_usize() as i128)),
                        ]))
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let b = |x: &BasicBlock| J::I(x.as_usize() as i128);
            let mut t = match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    vec![("k", J::s("goto")), ("to", b(target))]
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let mut v = Vec::new();
                    for (val, tgt) in targets.iter() {
                        v.push(J::A(vec![J::I(val as i128), b(&tgt)]));
                    }
                    vec![
                        ("k", J::s("switch")),
                        ("a", self.operand(body, discr)),
                        ("t", self.ty(dt)),
                        ("cases", J::A(v)),
                        ("else", b(&targets.otherwise())),
                    ]
                }
                TerminatorKind::Return => vec![("k", J::s("return"))],
                TerminatorKind::Unreachable => vec![("k", J::s("unreachable"))],
                TerminatorKind::UnwindResume => vec![("k", J::s("resume"))],
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let dt = place.ty(&body.local_decls, tcx).ty;
                    vec![
                        ("k", J::s("drop")),
                        ("pl", self.place(body, place)),
                        ("t", self.ty(dt)),
                        ("to", b(target)),
                        ("unw", Self::unwind(unwind)),
                    ]
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let mut v = Vec::new();
                    for a in args.iter() {
                        v.push(self.operand(body, &a.node));
                    }
                    vec![
                        ("k", J::s("call")),
                        ("f", self.operand(body, func)),
                        ("args", J::A(v)),
                        ("d", self.place(body, destination)),
                        ("to", match target {
                            Some(x) => b(x),
                            None => J::Null,
                        }),
                        ("unw", Self::unwind(unwind)),
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => J::O(vec![
                            ("k", J::s("bounds")),
                            ("len", self.operand(body, len)),
                            ("index", self.operand(body, index)),
                        ]),
                        AssertKind::Overflow(op, x, y) => J::O(vec![
                            ("k", J::s("overflow")),
                            ("op", J::s(format!("{:?}", op))),
                            ("x", self.operand(body, x)),
                            ("y", self.operand(body, y)),
                        ]),
                        AssertKind::OverflowNeg(_) => J::O(vec![("k", J::s("overflow_neg"))]),
                        AssertKind::DivisionByZero(_) => J::O(vec![("k", J::s("div_zero"))]),
                        AssertKind::RemainderByZero(_) => J::O(vec![("k", J::s("rem_zero"))]),
                        _ => J::O(vec![("k", J::s("other"))]),
                    };
                    vec![
                        ("k", J::s("assert")),
                        ("a", self.operand(body, cond)),
                        ("exp", J::B(*expected)),
                        ("msg", m),
                        ("to", b(target)),
                        ("unw", Self::unwind(unwind)),
                    ]
                }
                _ => vec![("k", J::s("other"))],
            };
            t.push(("sp", self.span(term.source_info.span)));
            blocks.push(J::O(vec![
                ("s", J::A(stmts)),
                ("t", J::O(t)),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("nargs", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn implements(&self, t: Ty<'tcx>, tr: DefId, owner: DefId) -> bool {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
        infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        dump(tcx, &self.out);
        Compilation::Continue
    }
}

fn vis_str(tcx: TyCtxt<'_>, d: DefId) -> String {
    match tcx.visibility(d) {
        ty::Visibility::Public => "pub".to_string(),
        ty::Visibility::Restricted(m) => format!("in {}", path(tcx, m.into())),
    }
}

fn derived(tcx: TyCtxt<'_>, d: DefId) -> bool {
    // inside an #[automatically_derived] impl or any macro-generated item
    let mut cur = Some(d);
    while let Some(x) = cur {
        if matches!(tcx.def_kind(x), DefKind::Impl { .. }) {
            return tcx.is_automatically_derived(x) || tcx.def_span(x).from_expansion();
        }
        cur = tcx.opt_parent(x);
    }
    false
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx { tcx, ty_ids: HashMap::new(), ty_out: Vec::new() };

    // bodies
    let mut bodies: Vec<(String, J)> = Vec::new();
    let mut seen: HashMap<String, usize> = HashMap::new();
    let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    for k in keys {
        let d = k.to_def_id();
        let kind = tcx.def_kind(d);
        let (body, kname): (&Body<'tcx>, &str) = match kind {
            DefKind::Fn | DefKind::AssocFn => (tcx.optimized_mir(d), "fn"),
            DefKind::Closure => (tcx.optimized_mir(d), "closure"),
            DefKind::Const { .. }
            | DefKind::AssocConst { .. }
            | DefKind::Static { .. }
            | DefKind::AnonConst => {
                if tcx.generics_of(d).requires_monomorphization(tcx) {
                    continue;
                }
                (tcx.mir_for_ctfe(d), "const")
            }
            DefKind::Ctor(..) => continue,
            _ => continue,
        };
        let mut p = path(tcx, d);
        let n = seen.entry(p.clone()).or_insert(0);
        *n += 1;
        if *n > 1 {
            p = format!("{}#{}", p, n);
        }
        let mut promoted = Vec::new();
        for pb in tcx.promoted_mir(d).iter() {
            promoted.push(cx.body(pb));
        }
        let mut o: Vec<(&'static str, J)> = vec![
            ("kind", J::s(kname)),
            ("span", cx.span(tcx.def_span(d))),
            ("derived", J::B(derived(tcx, d))),
            ("body", cx.body(body)),
            ("promoted", J::A(promoted)),
        ];
        {
            let root = tcx.typeck_root_def_id(d);
            let g = tcx.generics_of(root);
            let mut v = Vec::new();
            for i in 0..g.count() {
                let prm = g.param_at(i, tcx);
                if matches!(prm.kind, ty::GenericParamDefKind::Type { .. }) {
                    v.push(J::s(prm.name.to_string()));
                }
            }
            o.push(("generics", J::A(v)));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let mut v = Vec::new();
            for i in sig.inputs().iter() {
                v.push(cx.ty(*i));
            }
            o.push(("inputs", J::A(v)));
            o.push(("output", cx.ty(sig.output())));
            o.push(("abi", J::s(format!("{:?}", sig.abi()))));
            o.push(("vis", J::s(vis_str(tcx, d))));
            let attrs = tcx.codegen_fn_attrs(d);
            o.push(("no_mangle", J::B(
                attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE))));
            let mut an = Vec::new();
            for ident in tcx.fn_arg_idents(d).iter() {
                an.push(J::s(ident.map(|i| i.name.to_string()).unwrap_or_default()));
            }
            o.push(("argnames", J::A(an)));
            o.push(("effvis", J::B(tcx.effective_visibilities(()).is_reachable(k))));
        }
        if matches!(kind, DefKind::AssocFn) {
            let parent = tcx.parent(d);
            o.push(("method", J::s(tcx.item_name(d).to_string())));
            match tcx.def_kind(parent) {
                DefKind::Trait => o.push(("in_trait", J::s(path(tcx, parent)))),
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    o.push(("self_ty", cx.ty(st)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                        o.push(("of_trait", J::s(path(tcx, tr.def_id))));
                    }
                }
                _ => {}
            }
        }
        bodies.push((p, J::O(o)));
    }

    // adts, impls, traits, statics
    let mut adts: Vec<(String, J)> = Vec::new();
    let mut impls: Vec<J> = Vec::new();
    let mut traits: Vec<(String, J)> = Vec::new();
    let mut statics: Vec<(String, J)> = Vec::new();
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    let items: Vec<LocalDefId> = tcx.iter_local_def_id().collect();
    for l in items {
        let d = l.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                let mut vs = Vec::new();
                for v in def.variants().iter() {
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(J::O(vec![
                            ("n", J::s(f.name.to_string())),
                            ("t", cx.ty(ft)),
                            ("vis", J::s(vis_str(tcx, f.did))),
                        ]));
                    }
                    vs.push(J::O(vec![
                        ("n", J::s(v.name.to_string())),
                        ("fields", J::A(fs)),
                    ]));
                }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = ty::TypingEnv::post_analysis(tcx, d);
                let mut discrs = Vec::new();
                if def.is_enum() {
                    for (_, dv) in def.discriminants(tcx) {
                        discrs.push(J::I(dv.val as i128));
                    }
                }
                adts.push((
                    path(tcx, d),
                    J::O(vec![
                        ("kind", J::s(if def.is_enum() { "enum" } else { "struct" })),
                        ("vis", J::s(vis_str(tcx, d))),
                        ("effvis", J::B(tcx.effective_visibilities(()).is_reachable(l))),
                        ("span", cx.span(tcx.def_span(d))),
                        ("repr_c", J::B(def.repr().c())),
                        ("variants", J::A(vs)),
                        ("discrs", J::A(discrs)),
                        ("ty", cx.ty(t)),
                        ("freeze", J::B(t.is_freeze(tcx, env))),
                        ("send", J::B(send.map_or(false, |s| cx.implements(t, s, d)))),
                        ("sync", J::B(sync.map_or(false, |s| cx.implements(t, s, d)))),
                    ]),
                ));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut items = Vec::new();
                for it in tcx.associated_item_def_ids(d).iter() {
                    items.push(J::A(vec![
                        J::s(tcx.item_name(*it).to_string()),
                        J::s(path(tcx, *it)),
                    ]));
                }
                let mut o = vec![
                    ("self", cx.ty(st)),
                    ("items", J::A(items)),
                    ("span", cx.span(tcx.def_span(d))),
                    ("derived", J::B(tcx.is_automatically_derived(d))),
                ];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(path(tcx, tr.def_id))));
                    o.push(("trait_local", J::B(tr.def_id.is_local())));
                    o.push(("trait_args", cx.args(tr.args)));
                }
                impls.push(J::O(o));
            }
            DefKind::Trait => {
                let mut items = Vec::new();
                for it in tcx.associated_items(d).in_definition_order() {
                    items.push(J::A(vec![
                        J::s(it.name().to_string()),
                        J::s(path(tcx, it.def_id)),
                        J::B(it.defaultness(tcx).has_value()),
                    ]));
                }
                let mut supers = Vec::new();
                for s in tcx.explicit_super_clauses_of(d).iter_identity_copied() {
                    if let Some(tp) = s.skip_norm_wip().0.as_trait_clause() {
                        supers.push(J::s(path(tcx, tp.def_id())));
                    }
                }
                traits.push((
                    path(tcx, d),
                    J::O(vec![
                        ("items", J::A(items)),
                        ("supers", J::A(supers)),
                        ("vis", J::s(vis_str(tcx, d))),
                        ("span", cx.span(tcx.def_span(d))),
                    ]),
                ));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = ty::TypingEnv::post_analysis(tcx, d);
                statics.push((
                    path(tcx, d),
                    J::O(vec![
                        ("t", cx.ty(t)),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(t.is_freeze(tcx, env))),
                        ("tls", J::B(tcx.is_thread_local_static(d))),
                        ("span", cx.span(tcx.def_span(d))),
                    ]),
                ));
            }
            _ => {}
        }
    }
    let types = J::A(std::mem::take(&mut cx.ty_out));
    let j = J::O(vec![
        ("crate", J::s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
        ("types", types),
        ("adts", J::M(adts)),
        ("traits", J::M(traits)),
        ("impls", J::A(impls)),
        ("statics", J::M(statics)),
        ("bodies", J::M(bodies)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(out, s).expect("cannot write facts");
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 {
        args.remove(0); // wrapper's own path; args[0] is now the real rustc
    }
    let want = std::env::var("QMFACTS_CRATE").unwrap_or_default();
    let out = std::env::var("QMFACTS_OUT").unwrap_or_default();
    let mut name = String::new();
    let mut is_test = false;
    let mut lib = false;
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
        if args[i] == "--test" {
            is_test = true;
        }
        if args[i].ends_with("src/lib.rs") {
            lib = true;
        }
    }
    if !want.is_empty() && name == want && lib && !is_test && !out.is_empty() {
        args.push("-Zmir-opt-level=0".to_string());
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct No;
        impl Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
