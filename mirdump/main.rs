// MIR fact extractor: a rustc wrapper that, for the crate under analysis, writes the type-checked
// program (resolved MIR of every body, type/impl/trait tables, evaluated constants) as JSON.
// Nothing of the analysed crate is executed; constants are those computed by the compiler.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    // functions of other crates that are referred to
    ext: std::cell::RefCell<Vec<DefId>>,
}

// functions of the standard library whose own MIR is analysed when called
const EXTERNAL: [&str; 6] = [
    "std::option::Option::",
    "std::result::Result::",
    "std::cmp::",
    "core::bool::",
    "std::iter::Iterator::",
    "std::ops::",
];

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate).to_string();
        let p = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(
            self.tcx.def_path_str(d)
        ));
        if d.is_local() && !p.starts_with(&k) && !p.starts_with('<') {
            format!("{}::{}", k, p)
        } else {
            p
        }
    }
    // unique key of a definition
    fn key(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate).to_string();
        format!("{}{}", k, self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => r#"{"k":"bool"}"#.into(),
            ty::Char => r#"{"k":"char"}"#.into(),
            ty::Int(i) => format!(
                r#"{{"k":"int","bits":{}}}"#,
                i.bit_width().unwrap_or(64)
            ),
            ty::Uint(i) => format!(
                r#"{{"k":"uint","bits":{}}}"#,
                i.bit_width().unwrap_or(64)
            ),
            ty::Float(f) => format!(r#"{{"k":"float","bits":{}}}"#, f.bit_width()),
            ty::Str => r#"{"k":"str"}"#.into(),
            ty::Never => r#"{"k":"never"}"#.into(),
            ty::Adt(def, args) => format!(
                r#"{{"k":"adt","p":{},"a":{}}}"#,
                esc(&self.key(def.did())),
                self.args(args)
            ),
            ty::Array(t, n) => format!(
                r#"{{"k":"array","t":{},"n":{}}}"#,
                self.ty(*t),
                n.try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into())
            ),
            ty::Slice(t) => format!(r#"{{"k":"slice","t":{}}}"#, self.ty(*t)),
            ty::RawPtr(t, m) => format!(
                r#"{{"k":"ptr","t":{},"m":{}}}"#,
                self.ty(*t),
                m.is_mut()
            ),
            ty::Ref(_, t, m) => format!(
                r#"{{"k":"ref","t":{},"m":{}}}"#,
                self.ty(*t),
                m.is_mut()
            ),
            ty::Tuple(ts) => format!(
                r#"{{"k":"tuple","a":{}}}"#,
                arr(ts.iter().map(|x| self.ty(x)))
            ),
            ty::FnDef(d, args) => self.fnty(*d, args.skip_binder()),
            ty::Closure(d, args) => {
                let d: DefId = (*d).into();
                self.external(d);
                format!(
                    r#"{{"k":"closure","p":{},"a":{}}}"#,
                    esc(&self.key(d)),
                    self.args(args.as_closure().parent_args())
                )
            }
            ty::Param(p) => format!(
                r#"{{"k":"param","n":{},"i":{}}}"#,
                esc(p.name.as_str()),
                p.index
            ),
            ty::Dynamic(preds, ..) => format!(
                r#"{{"k":"dyn","p":{}}}"#,
                preds
                    .principal_def_id()
                    .map(|d| esc(&self.key(d)))
                    .unwrap_or("null".into())
            ),
            ty::Alias(..) => format!(r#"{{"k":"alias","s":{}}}"#, esc(&format!("{}", t))),
            _ => format!(r#"{{"k":"other","s":{}}}"#, esc(&format!("{}", t))),
        }
    }

    fn external(&self, d: DefId) {
        if d.is_local() {
            return;
        }
        let known = self.ext.borrow().contains(&d);
        if !known {
            self.ext.borrow_mut().push(d);
        }
    }

    fn fnty(&self, d: impl Into<DefId>, args: &'tcx [ty::GenericArg<'tcx>]) -> String {
        let d: DefId = d.into();
        self.external(d);
        let mut s = format!(
            r#"{{"k":"fn","p":{},"n":{},"a":{}"#,
            esc(&self.key(d)),
            esc(&self.path(d)),
            self.args(args)
        );
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            let _ = write!(
                s,
                r#","trait":{},"m":{}"#,
                esc(&self.key(t)),
                esc(self.tcx.item_name(d).as_str())
            );
        }
        s.push('}');
        s
    }

    fn args(&self, a: &'tcx [ty::GenericArg<'tcx>]) -> String {
        arr(a.iter().filter_map(|g| {
            if let Some(t) = g.as_type() {
                Some(self.ty(t))
            } else if let Some(c) = g.as_const() {
                Some(format!(r#"{{"k":"const","s":{}}}"#, esc(&format!("{}", c))))
            } else {
                None
            }
        }))
    }

    fn scalar(&self, s: ty::ScalarInt, t: Ty<'tcx>) -> String {
        let size = s.size();
        match t.kind() {
            ty::Bool => format!(r#"{{"b":{}}}"#, s.to_bits(size) != 0),
            ty::Int(_) => format!(r#"{{"i":"{}"}}"#, s.to_int(size)),
            ty::Uint(_) => format!(r#"{{"i":"{}"}}"#, s.to_bits(size)),
            ty::Char => format!(r#"{{"c":{}}}"#, s.to_bits(size)),
            ty::Float(f) => {
                let v = if f.bit_width() == 32 {
                    f32::from_bits(s.to_bits(size) as u32) as f64
                } else {
                    f64::from_bits(s.to_bits(size) as u64)
                };
                format!(r#"{{"f":"{:?}"}}"#, v)
            }
            _ => format!(r#"{{"i":"{}"}}"#, s.to_bits(size)),
        }
    }

    fn alloc_val(
        &self,
        id: rustc_middle::mir::interpret::AllocId,
        off: rustc_abi::Size,
        t: Ty<'tcx>,
        depth: u32,
    ) -> Option<String> {
        self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, t, depth)
    }

    fn cval(&self, v: ConstValue, t: Ty<'tcx>, depth: u32) -> Option<String> {
        let tcx = self.tcx;
        if depth > 12 {
            return None;
        }
        match t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => match v {
                ConstValue::Scalar(Scalar::Int(s)) => Some(self.scalar(s, t)),
                ConstValue::Indirect { alloc_id, offset } => {
                    let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else {
                        return None;
                    };
                    let lay = tcx
                        .layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t))
                        .ok()?;
                    let s = a
                        .inner()
                        .read_scalar(
                            &tcx,
                            rustc_middle::mir::interpret::alloc_range(offset, lay.size),
                            false,
                        )
                        .ok()?;
                    match s {
                        Scalar::Int(s) => Some(self.scalar(s, t)),
                        _ => None,
                    }
                }
                _ => None,
            },
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let lay = tcx
                    .layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(*et))
                    .ok()?;
                match v {
                    ConstValue::Indirect { alloc_id, offset } => {
                        let mut out = vec![];
                        for i in 0..n {
                            out.push(self.alloc_val(
                                alloc_id,
                                offset + lay.size * i,
                                *et,
                                depth + 1,
                            )?);
                        }
                        Some(format!(r#"{{"arr":[{}]}}"#, out.join(",")))
                    }
                    _ => None,
                }
            }
            ty::Ref(_, inner, _) => {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
                    let (id, off, len) = match v {
                        ConstValue::Slice { alloc_id, meta } => {
                            (alloc_id, rustc_abi::Size::ZERO, meta)
                        }
                        ConstValue::Indirect { alloc_id, offset } => {
                            let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else {
                                return None;
                            };
                            let ps = tcx.data_layout.pointer_size();
                            let p = a
                                .inner()
                                .read_scalar(
                                    &tcx,
                                    rustc_middle::mir::interpret::alloc_range(offset, ps),
                                    true,
                                )
                                .ok()?;
                            let l = a
                                .inner()
                                .read_scalar(
                                    &tcx,
                                    rustc_middle::mir::interpret::alloc_range(offset + ps, ps),
                                    false,
                                )
                                .ok()?;
                            let l = match l {
                                Scalar::Int(s) => s.to_bits(s.size()) as u64,
                                _ => return None,
                            };
                            match p {
                                Scalar::Ptr(p, _) => {
                                    let (prov, o) = p.into_raw_parts();
                                    (prov.alloc_id(), o, l)
                                }
                                _ => return None,
                            }
                        }
                        _ => return None,
                    };
                    if inner.is_str() {
                        let GlobalAlloc::Memory(a) = tcx.global_alloc(id) else {
                            return None;
                        };
                        let o = off.bytes() as usize;
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                            o..o + len as usize,
                        );
                        return Some(format!(r#"{{"s":{}}}"#, esc(&String::from_utf8_lossy(b))));
                    }
                    let ty::Slice(et) = inner.kind() else { return None };
                    let lay = tcx
                        .layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(*et))
                        .ok()?;
                    let mut out = vec![];
                    for i in 0..len {
                        out.push(self.alloc_val(id, off + lay.size * i, *et, depth + 1)?);
                    }
                    return Some(format!(r#"{{"ref":{{"arr":[{}]}}}}"#, out.join(",")));
                }
                let s = match v {
                    ConstValue::Scalar(s) => s,
                    ConstValue::Indirect { alloc_id, offset } => {
                        let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else {
                            return None;
                        };
                        let ps = tcx.data_layout.pointer_size();
                        a.inner()
                            .read_scalar(
                                &tcx,
                                rustc_middle::mir::interpret::alloc_range(offset, ps),
                                true,
                            )
                            .ok()?
                    }
                    _ => return None,
                };
                match s {
                    Scalar::Ptr(p, _) => {
                        let (prov, o) = p.into_raw_parts();
                        Some(format!(
                            r#"{{"ref":{}}}"#,
                            self.alloc_val(prov.alloc_id(), o, *inner, depth + 1)?
                        ))
                    }
                    _ => None,
                }
            }
            ty::Tuple(_) | ty::Adt(..) => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return None;
                    }
                }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut fs = vec![];
                for (fv, ft) in d.fields {
                    fs.push(self.cval(*fv, *ft, depth + 1)?);
                }
                match t.kind() {
                    ty::Adt(def, _) => {
                        let var = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                        Some(format!(
                            r#"{{"adt":{},"v":{},"fs":[{}]}}"#,
                            esc(&self.key(def.did())),
                            var,
                            fs.join(",")
                        ))
                    }
                    _ => Some(format!(r#"{{"tup":[{}]}}"#, fs.join(","))),
                }
            }
            ty::FnDef(..) => Some(r#"{"zst":true}"#.into()),
            _ => None,
        }
    }

    fn constant(&self, c: &ConstOperand<'tcx>, body_def: DefId) -> String {
        let t = c.const_.ty();
        let mut s = format!(r#"{{"k":"const","t":{}"#, self.ty(t));
        match t.kind() {
            ty::FnDef(..) | ty::Closure(..) => {
                s.push('}');
                return s;
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(s, r#","item":{}"#, esc(&self.key(u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(s, r#","promoted":{}"#, p.as_usize());
            }
        }
        let env = ty::TypingEnv::post_analysis(self.tcx, body_def);
        let val = if c.const_.has_param() {
            None
        } else {
            c.const_.eval(self.tcx, env, c.span).ok()
        };
        if let Some(v) = val {
            if let Some(x) = self.cval(v, t, 0) {
                let _ = write!(s, r#","v":{}"#, x);
            } else if matches!(v, ConstValue::ZeroSized) {
                s.push_str(r#","v":{"zst":true}"#);
            }
        }
        s.push('}');
        s
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let mut s = format!(r#"{{"l":{},"p":["#, p.local.as_usize());
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            match e {
                ProjectionElem::Deref => s.push_str(r#"["d"]"#),
                ProjectionElem::Field(f, _) => {
                    let _ = write!(s, r#"["f",{}]"#, f.as_usize());
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, r#"["i",{}]"#, l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(s, r#"["ci",{},{},{}]"#, offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, r#"["ss",{},{},{}]"#, from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(s, r#"["v",{}]"#, v.as_usize());
                }
                _ => s.push_str(r#"["x"]"#),
            }
        }
        s.push_str("]}");
        s
    }

    fn op(&self, o: &Operand<'tcx>, bd: DefId) -> String {
        match o {
            Operand::Copy(p) => format!(r#"{{"k":"copy","p":{}}}"#, self.place(p)),
            Operand::Move(p) => format!(r#"{{"k":"move","p":{}}}"#, self.place(p)),
            Operand::Constant(c) => self.constant(c, bd),
            Operand::RuntimeChecks(r) => format!(
                r#"{{"k":"rtcheck","s":{}}}"#,
                esc(&format!("{:?}", r))
            ),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>, bd: DefId, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!(r#"{{"k":"use","o":{}}}"#, self.op(o, bd)),
            Rvalue::Repeat(o, n) => format!(
                r#"{{"k":"repeat","o":{},"n":{}}}"#,
                self.op(o, bd),
                n.try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into())
            ),
            Rvalue::Ref(_, bk, p) => format!(
                r#"{{"k":"ref","m":{},"p":{}}}"#,
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::RawPtr(_, p) => format!(r#"{{"k":"rawptr","p":{}}}"#, self.place(p)),
            Rvalue::Cast(ck, o, t) => format!(
                r#"{{"k":"cast","ck":{},"o":{},"from":{},"t":{}}}"#,
                esc(&format!("{:?}", ck)),
                self.op(o, bd),
                self.ty(o.ty(&body.local_decls, self.tcx)),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(b, ab) => format!(
                r#"{{"k":"bin","op":{},"a":{},"b":{},"t":{}}}"#,
                esc(&format!("{:?}", b)),
                self.op(&ab.0, bd),
                self.op(&ab.1, bd),
                self.ty(ab.0.ty(&body.local_decls, self.tcx))
            ),
            Rvalue::UnaryOp(u, o) => format!(
                r#"{{"k":"un","op":{},"a":{},"t":{}}}"#,
                esc(&format!("{:?}", u)),
                self.op(o, bd),
                self.ty(o.ty(&body.local_decls, self.tcx))
            ),
            Rvalue::Discriminant(p) => format!(
                r#"{{"k":"discr","p":{},"t":{}}}"#,
                self.place(p),
                self.ty(p.ty(&body.local_decls, self.tcx).ty)
            ),
            Rvalue::Aggregate(ak, ops) => {
                let kind = match &**ak {
                    AggregateKind::Array(_) => r#""array""#.to_string(),
                    AggregateKind::Tuple => r#""tuple""#.to_string(),
                    AggregateKind::Adt(d, v, args, _, _) => format!(
                        r#"{{"adt":{},"v":{},"a":{}}}"#,
                        esc(&self.key(*d)),
                        v.as_usize(),
                        self.args(args)
                    ),
                    AggregateKind::Closure(d, args) => {
                        let d: DefId = (*d).into();
                        format!(
                            r#"{{"closure":{},"a":{}}}"#,
                            esc(&self.key(d)),
                            self.args(args.as_closure().parent_args())
                        )
                    }
                    _ => r#""other""#.to_string(),
                };
                format!(
                    r#"{{"k":"agg","ak":{},"ops":{}}}"#,
                    kind,
                    arr(ops.iter().map(|o| self.op(o, bd)))
                )
            }
            Rvalue::CopyForDeref(p) => format!(
                r#"{{"k":"use","o":{{"k":"copy","p":{}}}}}"#,
                self.place(p)
            ),
            Rvalue::Reborrow(_, m, p) => format!(
                r#"{{"k":"use","o":{{"k":"copy","p":{}}},"reborrow":{}}}"#,
                self.place(p),
                m.is_mut()
            ),
            _ => format!(r#"{{"k":"other","s":{}}}"#, esc(&format!("{:?}", r))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn body(&self, b: &Body<'tcx>, bd: DefId) -> String {
        let mut s = String::new();
        let mut names = vec![String::new(); b.local_decls.len()];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = v.name.to_string();
                }
            }
        }
        let _ = write!(
            s,
            r#"{{"argc":{},"locals":{}"#,
            b.arg_count,
            arr(b.local_decls.iter_enumerated().map(|(i, l)| format!(
                r#"{{"t":{},"n":{}}}"#,
                self.ty(l.ty),
                esc(&names[i.as_usize()])
            )))
        );
        s.push_str(r#","blocks":["#);
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                s.push(',');
            }
            s.push_str(r#"{"s":["#);
            let mut first = true;
            for st in &bb.statements {
                let x = match &st.kind {
                    StatementKind::Assign(pr) => format!(
                        r#"{{"k":"assign","p":{},"r":{},"ln":{}}}"#,
                        self.place(&pr.0),
                        self.rvalue(&pr.1, bd, b),
                        self.line(st.source_info.span)
                    ),
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        r#"{{"k":"setdiscr","p":{},"v":{}}}"#,
                        self.place(place),
                        variant_index.as_usize()
                    ),
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&x);
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tt = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    format!(r#"{{"k":"goto","t":{}}}"#, target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let vals = targets
                        .iter()
                        .map(|(v, _)| {
                            // sign-extend according to the type
                            if let ty::Int(i) = dt.kind() {
                                let bits = i.bit_width().unwrap_or(64) as u32;
                                let sh = 128 - bits;
                                format!("\"{}\"", ((v << sh) as i128) >> sh)
                            } else {
                                format!("\"{}\"", v)
                            }
                        })
                        .collect::<Vec<_>>();
                    format!(
                        r#"{{"k":"switch","o":{},"vals":[{}],"ts":{},"ty":{},"ln":{}}}"#,
                        self.op(discr, bd),
                        vals.join(","),
                        arr(targets.all_targets().iter().map(|x| x.as_usize().to_string())),
                        self.ty(dt),
                        ln
                    )
                }
                TerminatorKind::Return => r#"{"k":"return"}"#.into(),
                TerminatorKind::Unreachable => r#"{"k":"unreachable"}"#.into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    r#"{"k":"resume"}"#.into()
                }
                TerminatorKind::Drop { place, target, .. } => format!(
                    r#"{{"k":"drop","p":{},"t":{}}}"#,
                    self.place(place),
                    target.as_usize()
                ),
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    r#"{{"k":"call","f":{},"args":{},"d":{},"t":{},"ln":{},"rt":{}}}"#,
                    self.op(func, bd),
                    arr(args.iter().map(|a| self.op(&a.node, bd))),
                    self.place(destination),
                    target
                        .map(|x| x.as_usize().to_string())
                        .unwrap_or("null".into()),
                    ln,
                    self.ty(destination.ty(&b.local_decls, self.tcx).ty)
                ),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflowneg",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    format!(
                        r#"{{"k":"assert","o":{},"e":{},"m":{},"t":{},"ln":{}}}"#,
                        self.op(cond, bd),
                        expected,
                        esc(kind),
                        target.as_usize(),
                        ln
                    )
                }
                k => format!(r#"{{"k":"other","s":{}}}"#, esc(&format!("{:?}", k))),
            };
            let _ = write!(s, r#"],"t":{},"c":{}}}"#, tt, bb.is_cleanup);
        }
        s.push_str("]}");
        s
    }

    fn generics(&self, d: DefId) -> String {
        let mut names = vec![];
        let mut g = self.tcx.generics_of(d);
        loop {
            let mut own: Vec<(u32, String)> = g
                .own_params
                .iter()
                .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                .map(|p| (p.index, p.name.to_string()))
                .collect();
            names.append(&mut own);
            match g.parent {
                Some(p) => g = self.tcx.generics_of(p),
                None => break,
            }
        }
        names.sort();
        arr(names.iter().map(|(_, n)| esc(n)))
    }

    fn file(&self, d: DefId) -> (String, usize) {
        let sp = self.tcx.def_span(d);
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        (
            l.file.name.prefer_remapped_unconditionally().to_string(),
            l.line,
        )
    }

    fn function(&self, d: DefId, kind: DefKind) -> String {
        let tcx = self.tcx;
        let mut out = String::new();
        let b = tcx.optimized_mir(d);
        let (file, line) = self.file(d);
        let assoc = if matches!(kind, DefKind::AssocFn) {
            let parent = tcx.parent(d);
            if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                let tr = tcx
                    .impl_opt_trait_ref(parent)
                    .map(|t| t.instantiate_identity().skip_norm_wip());
                format!(
                    r#"{{"impl":{},"self":{},"trait":{},"targs":{}}}"#,
                    esc(&self.key(parent)),
                    self.ty(st),
                    tr.map(|t| esc(&self.key(t.def_id))).unwrap_or("null".into()),
                    tr.map(|t| self.args(t.args)).unwrap_or("[]".into())
                )
            } else {
                format!(r#"{{"intrait":{}}}"#, esc(&self.key(parent)))
            }
        } else {
            "null".into()
        };
        let promoted = tcx.promoted_mir(d);
        let _ = write!(
            out,
            "\n{{\"key\":{},\"path\":{},\"name\":{},\"file\":{},\"line\":{},\"kind\":{},\"assoc\":{},\"generics\":{},\"pub\":{},\"body\":{},\"promoted\":{}}}",
            esc(&self.key(d)),
            esc(&self.path(d)),
            esc(&tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default()),
            esc(&file),
            line,
            esc(&format!("{:?}", kind)),
            assoc,
            self.generics(d),
            tcx.def_kind(d) != DefKind::Closure && tcx.visibility(d).is_public(),
            self.body(b, d),
            arr(promoted.iter().map(|p| self.body(p, d)))
        );
        out
    }

    fn run(&self) -> String {
        let tcx = self.tcx;
        let mut out = String::from("{\"crate\":");
        out.push_str(&esc(&tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string()));
        // function bodies and const bodies
        out.push_str(",\"fns\":[");
        let mut first = true;
        let mut consts = vec![];
        for ld in tcx.hir_body_owners() {
            let ld: LocalDefId = ld;
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    consts.push(d);
                    continue;
                }
                _ => continue,
            }
            if !first {
                out.push(',');
            }
            first = false;
            out.push_str(&self.function(d, kind));
        }
        out.push_str("],\n\"std\":[");
        first = true;
        let mut i = 0;
        loop {
            let d = match self.ext.borrow().get(i) {
                Some(d) => *d,
                None => break,
            };
            i += 1;
            let kind = tcx.def_kind(d);
            let root = tcx.typeck_root_def_id(d);
            let p = self.path(root);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
                || !EXTERNAL.iter().any(|x| p.starts_with(x))
                || !tcx.is_mir_available(d)
            {
                continue;
            }
            if !first {
                out.push(',');
            }
            first = false;
            out.push_str(&self.function(d, kind));
        }
        out.push_str("],\n\"consts\":[");
        first = true;
        for d in consts {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let v = if t.has_param() || tcx.generics_of(d).count() > 0 {
                None
            } else {
                match tcx.def_kind(d) {
                    DefKind::Static { .. } => None,
                    _ => tcx.const_eval_poly(d).ok().and_then(|v| self.cval(v, t, 0)),
                }
            };
            let (file, line) = self.file(d);
            if !first {
                out.push(',');
            }
            first = false;
            let _ = write!(
                out,
                "\n{{\"key\":{},\"path\":{},\"t\":{},\"v\":{},\"file\":{},\"line\":{}}}",
                esc(&self.key(d)),
                esc(&self.path(d)),
                self.ty(t),
                v.unwrap_or("null".into()),
                esc(&file),
                line
            );
        }
        out.push_str("],\n\"adts\":[");
        first = true;
        let items = tcx.hir_crate_items(());
        let mut alladts: Vec<DefId> = vec![];
        for id in items.definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                alladts.push(d);
            }
        }
        for p in [tcx.lang_items().option_type(), tcx.lang_items().range_struct()] {
            if let Some(d) = p {
                alladts.push(d);
            }
        }
        for d in alladts {
            let def = tcx.adt_def(d);
            if !first {
                out.push(',');
            }
            first = false;
            let discrs: Vec<String> = if def.is_enum() {
                def.discriminants(tcx)
                    .map(|(_, dd)| {
                        let dt = dd.ty;
                        if let ty::Int(i) = dt.kind() {
                            let bits = i.bit_width().unwrap_or(64) as u32;
                            let sh = 128 - bits;
                            format!("{}", ((dd.val << sh) as i128) >> sh)
                        } else {
                            format!("{}", dd.val)
                        }
                    })
                    .collect()
            } else {
                vec!["0".into()]
            };
            let (file, line) = self.file(d);
            let _ = write!(
                out,
                "\n{{\"key\":{},\"path\":{},\"enum\":{},\"file\":{},\"line\":{},\"generics\":{},\"variants\":{}}}",
                esc(&self.key(d)),
                esc(&self.path(d)),
                def.is_enum(),
                esc(&file),
                line,
                self.generics(d),
                arr(def.variants().iter_enumerated().map(|(i, v)| format!(
                    r#"{{"n":{},"d":"{}","fs":{}}}"#,
                    esc(v.name.as_str()),
                    discrs[i.as_usize()],
                    arr(v.fields.iter().map(|f| format!(
                        r#"{{"n":{},"t":{},"pub":{}}}"#,
                        esc(f.name.as_str()),
                        self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                        tcx.visibility(f.did).is_public()
                    )))
                )))
            );
        }
        out.push_str("],\n\"impls\":[");
        first = true;
        for id in items.definitions() {
            let d = id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) {
                continue;
            }
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let tr = tcx
                .impl_opt_trait_ref(d)
                .map(|t| t.instantiate_identity().skip_norm_wip());
            let methods: Vec<String> = tcx
                .associated_items(d)
                .in_definition_order()
                .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                .map(|i| format!("{}:{}", esc(i.name().as_str()), esc(&self.key(i.def_id))))
                .collect();
            if !first {
                out.push(',');
            }
            first = false;
            let (file, line) = self.file(d);
            let _ = write!(
                out,
                "\n{{\"key\":{},\"self\":{},\"trait\":{},\"targs\":{},\"generics\":{},\"file\":{},\"line\":{},\"derived\":{},\"methods\":{{{}}}}}",
                esc(&self.key(d)),
                self.ty(st),
                tr.map(|t| esc(&self.key(t.def_id))).unwrap_or("null".into()),
                tr.map(|t| self.args(t.args)).unwrap_or("[]".into()),
                self.generics(d),
                esc(&file),
                line,
                tcx.is_automatically_derived(d),
                methods.join(",")
            );
        }
        out.push_str("],\n\"traits\":[");
        first = true;
        for id in items.definitions() {
            let d = id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Trait) {
                continue;
            }
            if !first {
                out.push(',');
            }
            first = false;
            let ms: Vec<String> = tcx
                .associated_items(d)
                .in_definition_order()
                .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                .map(|i| {
                    format!(
                        r#"{{"n":{},"key":{},"default":{}}}"#,
                        esc(i.name().as_str()),
                        esc(&self.key(i.def_id)),
                        i.defaultness(tcx).has_value()
                    )
                })
                .collect();
            let (file, line) = self.file(d);
            let sup: Vec<String> = tcx
                .explicit_super_clauses_of(d)
                .skip_binder()
                .iter()
                .filter_map(|(c, _)| c.as_trait_clause().map(|t| esc(&self.key(t.def_id()))))
                .collect();
            let _ = write!(
                out,
                "\n{{\"key\":{},\"file\":{},\"line\":{},\"methods\":[{}],\"supers\":[{}]}}",
                esc(&self.key(d)),
                esc(&file),
                line,
                ms.join(","),
                sup.join(",")
            );
        }
        out.push_str("]}\n");
        out
    }
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(o) = &self.out {
            let s = (D { tcx, ext: Default::default() }).run();
            std::fs::write(o, s).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "rust_quantlib")
        && !args.iter().any(|a| a == "--test");
    let mut cb = Cb {
        out: if is_target { std::env::var("MIRDUMP_OUT").ok() } else { None },
    };
    if cb.out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Coverflow-checks=on".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
