// MIR extractor: runs the project's own compiler front end (nightly-2019-08-26)
// on one crate and writes, as JSON, every body's MIR (before promotion, borrowck,
// drop elaboration and the generator transform) with resolved callees, the
// crate's ADTs, impls and traits.  The output path is in $MIRX_OUT.
#![feature(rustc_private)]
extern crate rustc;
extern crate rustc_driver;
extern crate rustc_interface;
extern crate syntax;
extern crate syntax_pos;

use rustc::hir;
use rustc::hir::def::DefKind;
use rustc::hir::def_id::{DefId, LOCAL_CRATE};
use rustc::mir::interpret::{ConstValue, Scalar};
use rustc::mir::*;
use rustc::ty::layout::VariantIdx;
use rustc::ty::{self, Ty, TyCtxt};
use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use std::fmt::Write as _;
use syntax_pos::Span;

struct Cb;

impl Callbacks for Cb {
    fn after_expansion(&mut self, c: &interface::Compiler) -> Compilation {
        if let Ok(out) = std::env::var("MIRX_OUT") {
            let g = match c.global_ctxt() {
                Ok(g) => g,
                Err(_) => return Compilation::Stop,
            };
            g.peek_mut().enter(|tcx| {
                let s = dump(tcx);
                if !tcx.sess.has_errors() {
                    std::fs::write(&out, s).expect("write MIRX_OUT");
                }
            });
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if let Ok(sr) = std::env::var("MIRX_SYSROOT") {
        args.push("--sysroot".into());
        args.push(sr);
    }
    let r = rustc_driver::report_ices_to_stderr_if_any(|| {
        rustc_driver::run_compiler(&args, &mut Cb, None, None)
    })
    .and_then(|r| r);
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                write!(o, "\\u{:04x}", c as u32).unwrap()
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct X<'tcx> {
    tcx: TyCtxt<'tcx>,
    // enums of other crates in use: name -> [[discriminant, variant], ...]
    enums: std::cell::RefCell<std::collections::BTreeMap<String, String>>,
}

impl<'tcx> X<'tcx> {
    fn foreign(&self, a: &ty::AdtDef) {
        if !a.is_enum() || a.did.is_local() {
            return;
        }
        let q = self.qn(a.did);
        let mut m = self.enums.borrow_mut();
        if !m.contains_key(&q) {
            let vs = arr(a.variants.iter_enumerated().map(|(vi, v)| {
                format!("[\"{}\",{}]", a.discriminant_for_variant(self.tcx, vi).val, js(&v.ident.to_string()))
            }));
            m.insert(q, vs);
        }
    }

    // fully qualified, crate-prefixed name of a definition
    fn qn(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        use rustc::hir::map::DefPathData::*;
        match key.disambiguated_data.data {
            CrateRoot => tcx.crate_name(d.krate).to_string(),
            ClosureExpr => {
                let p = DefId { krate: d.krate, index: key.parent.unwrap() };
                format!("{}::{{c{}}}", self.qn(p), key.disambiguated_data.disambiguator)
            }
            Ctor => {
                let p = DefId { krate: d.krate, index: key.parent.unwrap() };
                self.qn(p)
            }
            Impl => {
                let self_ty = tcx.type_of(d);
                let st = self.ty(self_ty);
                match tcx.impl_trait_ref(d) {
                    Some(tr) => format!("<{} as {}>", st, self.trait_ref(tr)),
                    None => st,
                }
            }
            ref data => {
                let p = DefId { krate: d.krate, index: key.parent.unwrap() };
                let pk = tcx.def_key(p);
                // extern "C" blocks / misc add nothing to the path
                let name = data.as_interned_str().to_string();
                let base = match pk.disambiguated_data.data {
                    Impl if tcx.impl_trait_ref(p).is_none() => {
                        // inherent impl: Type::method, without generic args
                        let t = tcx.type_of(p);
                        match t.sty {
                            ty::Adt(a, _) => self.qn(a.did),
                            _ => self.ty(t),
                        }
                    }
                    _ => self.qn(p),
                };
                let dis = key.disambiguated_data.disambiguator;
                if dis != 0 {
                    format!("{}::{}#{}", base, name, dis)
                } else {
                    format!("{}::{}", base, name)
                }
            }
        }
    }

    fn trait_ref(&self, tr: ty::TraitRef<'tcx>) -> String {
        let args: Vec<String> = tr.substs.types().skip(1).map(|t| self.ty(t)).collect();
        let q = self.qn(tr.def_id);
        if args.is_empty() {
            q
        } else {
            format!("{}<{}>", q, args.join(", "))
        }
    }

    fn args(&self, substs: ty::subst::SubstsRef<'tcx>) -> String {
        let v: Vec<String> = substs.types().map(|t| self.ty(t)).collect();
        if v.is_empty() {
            String::new()
        } else {
            format!("<{}>", v.join(", "))
        }
    }

    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.sty {
            ty::Adt(a, s) => format!("{}{}", self.qn(a.did), self.args(s)),
            ty::Ref(_, t, m) => format!(
                "&{}{}",
                if m == hir::Mutability::MutMutable { "mut " } else { "" },
                self.ty(t)
            ),
            ty::RawPtr(tm) => format!("*{}", self.ty(tm.ty)),
            ty::Slice(t) => format!("[{}]", self.ty(t)),
            ty::Array(t, n) => {
                let n = n
                    .try_eval_usize(self.tcx, ty::ParamEnv::reveal_all())
                    .map(|n| n.to_string())
                    .unwrap_or_else(|| "_".into());
                format!("[{}; {}]", self.ty(t), n)
            }
            ty::Tuple(_) => {
                let v: Vec<String> = t.tuple_fields().map(|t| self.ty(t)).collect();
                format!("({})", v.join(", "))
            }
            ty::FnDef(d, s) => format!("fn:{}{}", self.qn(d), self.args(s)),
            ty::Closure(d, _) => format!("closure:{}", self.qn(d)),
            ty::Generator(d, _, _) => format!("generator:{}", self.qn(d)),
            ty::Dynamic(ref preds, _) => match preds.principal_def_id() {
                Some(d) => format!("dyn {}", self.qn(d)),
                None => "dyn ?".into(),
            },
            ty::Opaque(d, _) => format!("impl:{}", self.qn(d)),
            ty::Projection(p) => {
                format!("<{} as {}>::{}", self.ty(p.self_ty()), self.qn(p.trait_ref(self.tcx).def_id), self.tcx.associated_item(p.item_def_id).ident)
            }
            ty::Param(p) => p.name.to_string(),
            _ => format!("{}", t),
        }
    }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("{}:{}", l.file.name, l.line)
    }

    // {"def": qname, "name":..., "trait":..., "self":..., "args":[..], "inst": resolved impl fn}
    fn callee(&self, owner: DefId, d: DefId, substs: ty::subst::SubstsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"def\":{},\"krate\":{}", js(&self.qn(d)), js(&tcx.crate_name(d.krate).to_string()));
        let mut tr = None;
        if let Some(ai) = tcx.opt_associated_item(d) {
            if let ty::TraitContainer(t) = ai.container {
                tr = Some(t);
            }
        }
        if let Some(t) = tr {
            write!(o, ",\"trait\":{},\"name\":{}", js(&self.qn(t)), js(&tcx.item_name(d).to_string())).unwrap();
            if substs.types().next().is_some() {
                write!(o, ",\"self\":{}", js(&self.ty(substs.type_at(0)))).unwrap();
            }
        }
        write!(o, ",\"args\":{}", arr(substs.types().map(|t| js(&self.ty(t))))).unwrap();
        if tr.is_some() {
            let env = tcx.param_env(owner).with_reveal_all();
            let s = tcx.erase_regions(&substs);
            if !s.types().any(|t| has_infer(t)) {
                let inst = ty::Instance::resolve(tcx, env, d, s);
                if let Some(i) = inst {
                    match i.def {
                        ty::InstanceDef::Item(id) => {
                            if id != d {
                                write!(o, ",\"inst\":{},\"iargs\":{}", js(&self.qn(id)), arr(i.substs.types().map(|t| js(&self.ty(t))))).unwrap();
                            } else {
                                write!(o, ",\"inst_default\":true").unwrap();
                            }
                        }
                        ty::InstanceDef::Virtual(..) => write!(o, ",\"virtual\":true").unwrap(),
                        ty::InstanceDef::ClosureOnceShim { call_once: _ } => {
                            write!(o, ",\"shim\":\"closure_once\"").unwrap()
                        }
                        ty::InstanceDef::CloneShim(..) => {
                            write!(o, ",\"shim\":\"clone\"").unwrap()
                        }
                        ty::InstanceDef::FnPtrShim(..) => {
                            write!(o, ",\"shim\":\"fnptr\"").unwrap()
                        }
                        _ => {}
                    }
                }
            }
        }
        o.push('}');
        o
    }

    fn constant(&self, owner: DefId, c: &ty::Const<'tcx>) -> String {
        let tcx = self.tcx;
        match c.ty.sty {
            ty::FnDef(d, s) => return format!("[\"fn\",{}]", self.callee(owner, d, s)),
            _ => {}
        }
        let t = js(&self.ty(c.ty));
        match c.val {
            ConstValue::Unevaluated(d, s) => {
                return format!("[\"const\",{},{},{}]", js(&self.qn(d)), t, arr(s.types().map(|t| js(&self.ty(t)))))
            }
            _ => {}
        }
        match c.ty.sty {
            ty::Bool | ty::Uint(_) | ty::Char => {
                if let Some(b) = c.try_eval_bits(tcx, ty::ParamEnv::reveal_all(), c.ty) {
                    return format!("[\"int\",\"{}\",{}]", b, t);
                }
            }
            ty::Int(_) => {
                if let Some(b) = c.try_eval_bits(tcx, ty::ParamEnv::reveal_all(), c.ty) {
                    let sz = tcx.layout_of(ty::ParamEnv::reveal_all().and(c.ty)).unwrap().size;
                    let sh = 128 - sz.bits() as u32;
                    let v = ((b << sh) as i128) >> sh;
                    return format!("[\"int\",\"{}\",{}]", v, t);
                }
            }
            ty::Ref(_, inner, _) => {
                if let ConstValue::Slice { data, start, end } = c.val {
                    let bytes = data.bytes[start..end].to_vec();
                    if let ty::Str = inner.sty {
                        return format!("[\"str\",{},{}]", js(&String::from_utf8_lossy(&bytes)), t);
                    }
                    return format!("[\"bytes\",{},{}]", arr(bytes.iter().map(|b| b.to_string())), t);
                }
                if let ty::Array(e, n) = inner.sty {
                    if let ty::Uint(syntax::ast::UintTy::U8) = e.sty {
                        if let ConstValue::Scalar(Scalar::Ptr(p)) = c.val {
                            if let Some(n) = n.try_eval_usize(tcx, ty::ParamEnv::reveal_all()) {
                                let al = tcx.alloc_map.lock().get(p.alloc_id);
                                if let Some(interpret::GlobalAlloc::Memory(a)) = al {
                                    let st = p.offset.bytes() as usize;
                                    let bytes = a.bytes[st..st + n as usize].to_vec();
                                    return format!("[\"bytes\",{},{}]", arr(bytes.iter().map(|b| b.to_string())), t);
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        format!("[\"k\",{},{}]", js(&format!("{:?}", c)), t)
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        p.iterate(|base, projs| {
            let mut pty;
            let b = match base {
                PlaceBase::Local(l) => {
                    pty = PlaceTyX { ty: body.local_decls[*l].ty, variant: None };
                    l.index().to_string()
                }
                PlaceBase::Static(s) => {
                    pty = PlaceTyX { ty: s.ty, variant: None };
                    match s.kind {
                        StaticKind::Static(d) => js(&self.qn(d)),
                        StaticKind::Promoted(p) => js(&format!("promoted{}", p.index())),
                    }
                }
            };
            let mut v = vec![];
            for pr in projs {
                match &pr.elem {
                    ProjectionElem::Deref => {
                        v.push("\"*\"".to_string());
                        pty = PlaceTyX {
                            ty: pty.ty.builtin_deref(true).map(|t| t.ty).unwrap_or(pty.ty),
                            variant: None,
                        };
                    }
                    ProjectionElem::Field(f, fty) => {
                        let mut name = f.index().to_string();
                        let mut own = String::new();
                        match pty.ty.sty {
                            ty::Adt(a, _) => {
                                let vi = pty.variant.unwrap_or_else(|| VariantIdx::from_u32(0));
                                if a.is_enum() || a.is_struct() || a.is_union() {
                                    let vd = &a.variants[vi];
                                    name = vd.fields[f.index()].ident.to_string();
                                    own = self.qn(a.did);
                                    if a.is_enum() {
                                        own = format!("{}::{}", own, vd.ident);
                                    }
                                }
                            }
                            ty::Closure(d, _) | ty::Generator(d, _, _) => {
                                own = format!("closure:{}", self.qn(d));
                            }
                            _ => {}
                        }
                        v.push(format!("[\"f\",{},{},{}]", f.index(), js(&name), js(&own)));
                        pty = PlaceTyX { ty: fty, variant: None };
                    }
                    ProjectionElem::Downcast(sym, vi) => {
                        let mut name = sym.map(|s| s.to_string()).unwrap_or_default();
                        if let ty::Adt(a, _) = pty.ty.sty {
                            name = format!("{}::{}", self.qn(a.did), a.variants[*vi].ident);
                        }
                        v.push(format!("[\"d\",{},{}]", vi.index(), js(&name)));
                        pty.variant = Some(*vi);
                    }
                    ProjectionElem::Index(l) => {
                        v.push(format!("[\"i\",{}]", l.index()));
                        pty = PlaceTyX { ty: elem_ty(tcx, pty.ty), variant: None };
                    }
                    ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                        v.push(format!("[\"ci\",{},{}]", offset, from_end));
                        pty = PlaceTyX { ty: elem_ty(tcx, pty.ty), variant: None };
                    }
                    ProjectionElem::Subslice { from, to } => {
                        v.push(format!("[\"ss\",{},{}]", from, to));
                    }
                }
            }
            format!("[{},[{}]]", b, v.join(","))
        })
    }

    fn operand(&self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => self.constant(owner, c.literal),
        }
    }

    fn rvalue(&self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let op = |o: &Operand<'tcx>| self.operand(owner, body, o);
        match r {
            Rvalue::Use(o) => format!("[\"use\",{}]", op(o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},\"{}\"]", op(o), n),
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "shallow",
                };
                format!("[\"ref\",\"{}\",{}]", k, self.place(body, p))
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), op(o), js(&self.ty(t)))
            }
            Rvalue::BinaryOp(b, x, y) | Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, op(x), op(y))
            }
            Rvalue::NullaryOp(_, t) => format!("[\"nullary\",{}]", js(&self.ty(t))),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, op(x)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let t = match t.sty {
                    ty::Adt(a, _) => {
                        self.foreign(a);
                        self.qn(a.did)
                    }
                    _ => String::new(),
                };
                format!("[\"discr\",{},{}]", self.place(body, p), js(&t))
            }
            Rvalue::Aggregate(k, ops) => {
                let os = arr(ops.iter().map(|o| op(o)));
                match **k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",null,null,{}]", os),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,null,{}]", os),
                    AggregateKind::Adt(a, vi, _, _, active) => {
                        let vd = &a.variants[vi];
                        self.foreign(a);
                        let q = if a.is_enum() {
                            format!("{}::{}", self.qn(a.did), vd.ident)
                        } else {
                            self.qn(a.did)
                        };
                        let names = match active {
                            Some(i) => vec![js(&vd.fields[i].ident.to_string())],
                            None => vd.fields.iter().map(|f| js(&f.ident.to_string())).collect(),
                        };
                        format!("[\"agg\",\"adt\",{},{},{}]", js(&q), arr(names), os)
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"agg\",\"closure\",{},null,{}]", js(&self.qn(d)), os)
                    }
                    AggregateKind::Generator(d, _, _) => {
                        format!("[\"agg\",\"generator\",{},null,{}]", js(&self.qn(d)), os)
                    }
                }
            }
        }
    }

    fn body(&self, owner: DefId, body: &Body<'tcx>, kind: &str) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let sp = tcx.def_span(owner);
        write!(
            o,
            "{{\"q\":{},\"kind\":{},\"span\":{},\"nargs\":{},\"from_macro\":{}",
            js(&self.qn(owner)),
            js(kind),
            js(&self.span(sp)),
            body.arg_count,
            sp.ctxt() != syntax_pos::hygiene::SyntaxContext::root()
        )
        .unwrap();
        if let Some(ai) = tcx.opt_associated_item(owner) {
            write!(o, ",\"name\":{}", js(&ai.ident.to_string())).unwrap();
            match ai.container {
                ty::TraitContainer(t) => write!(o, ",\"trait_default\":{}", js(&self.qn(t))).unwrap(),
                ty::ImplContainer(i) => {
                    write!(o, ",\"impl_self\":{}", js(&self.ty(tcx.type_of(i)))).unwrap();
                    if let Some(tr) = tcx.impl_trait_ref(i) {
                        write!(o, ",\"impl_trait\":{}", js(&self.qn(tr.def_id))).unwrap();
                    }
                }
            }
        }
        let mut gn: Vec<String> = vec![];
        let mut gd = Some(owner);
        while let Some(d) = gd {
            let g = tcx.generics_of(d);
            let mut own: Vec<String> = g
                .params
                .iter()
                .filter(|p| match p.kind {
                    ty::GenericParamDefKind::Type { .. } => true,
                    _ => false,
                })
                .map(|p| js(&p.name.to_string()))
                .collect();
            own.append(&mut gn);
            gn = own;
            gd = g.parent;
        }
        write!(o, ",\"generics\":[{}]", gn.join(",")).unwrap();
        if let Some(up) = tcx.upvars(owner) {
            let v = arr(up.iter().map(|(id, _)| js(&tcx.hir().name(*id).to_string())));
            write!(o, ",\"upvars\":{}", v).unwrap();
        }
        write!(
            o,
            ",\"locals\":{}",
            arr(body.local_decls.iter().map(|l| {
                let n = l.name.map(|s| js(&s.to_string())).unwrap_or_else(|| "null".into());
                format!("[{},{}]", js(&self.ty(l.ty)), n)
            }))
        )
        .unwrap();
        o.push_str(",\"blocks\":[");
        for (bi, bb) in body.basic_blocks().iter_enumerated() {
            if bi.index() > 0 {
                o.push(',');
            }
            let mut st = vec![];
            for s in &bb.statements {
                let l = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(format!(
                        "[\"=\",{},{},{}]",
                        self.place(body, p),
                        self.rvalue(owner, body, r),
                        js(&l)
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                        "[\"setd\",{},{},{}]",
                        self.place(body, place),
                        variant_index.index(),
                        js(&l)
                    )),
                    StatementKind::StorageDead(l) => st.push(format!("[\"sd\",{}]", l.index())),
                    StatementKind::InlineAsm(_) => st.push("[\"asm\"]".into()),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let l = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, switch_ty, values, targets } => format!(
                    "[\"switch\",{},{},{},{}]",
                    self.operand(owner, body, discr),
                    js(&self.ty(switch_ty)),
                    arr(values.iter().map(|v| format!("\"{}\"", v))),
                    arr(targets.iter().map(|t| t.index().to_string()))
                ),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { location, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(body, location), target.index())
                }
                TerminatorKind::DropAndReplace { location, value, target, .. } => format!(
                    "[\"replace\",{},{},{}]",
                    self.place(body, location),
                    self.operand(owner, body, value),
                    target.index()
                ),
                TerminatorKind::Call { func, args, destination, .. } => {
                    let f = self.operand(owner, body, func);
                    let a = arr(args.iter().map(|o| self.operand(owner, body, o)));
                    match destination {
                        Some((p, b)) => format!(
                            "[\"call\",{},{},{},{}]",
                            f,
                            a,
                            self.place(body, p),
                            b.index()
                        ),
                        None => format!("[\"call\",{},{},null,null]", f, a),
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(owner, body, cond),
                        expected,
                        js(&m),
                        target.index()
                    )
                }
                TerminatorKind::Yield { value, resume, .. } => format!(
                    "[\"yield\",{},{}]",
                    self.operand(owner, body, value),
                    resume.index()
                ),
                TerminatorKind::GeneratorDrop => "[\"gendrop\"]".into(),
                TerminatorKind::FalseEdges { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
            };
            write!(
                o,
                "{{\"s\":[{}],\"t\":{},\"l\":{},\"c\":{}}}",
                st.join(","),
                ts,
                js(&l),
                if bb.is_cleanup { 1 } else { 0 }
            )
            .unwrap();
        }
        o.push_str("]}");
        o
    }
}

struct PlaceTyX<'tcx> {
    ty: Ty<'tcx>,
    variant: Option<VariantIdx>,
}

fn elem_ty<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
    t.builtin_index().unwrap_or_else(|| tcx.types.err)
}

fn has_infer(t: Ty<'_>) -> bool {
    use rustc::ty::fold::TypeFoldable;
    t.has_infer_types() || t.has_escaping_bound_vars()
}

fn vis(tcx: TyCtxt<'_>, v: ty::Visibility) -> String {
    match v {
        ty::Visibility::Public => "pub".into(),
        ty::Visibility::Invisible => "none".into(),
        ty::Visibility::Restricted(d) => {
            format!("in {}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate())
        }
    }
}

fn hvis(tcx: TyCtxt<'_>, d: DefId) -> &'static str {
    let h = tcx.hir().as_local_hir_id(d).unwrap();
    let v = match tcx.hir().get(h) {
        hir::Node::Item(i) => &i.vis,
        hir::Node::ImplItem(i) => &i.vis,
        _ => return "trait",
    };
    match v.node {
        hir::VisibilityKind::Public => "pub",
        hir::VisibilityKind::Inherited => "priv",
        _ => "crate",
    }
}

fn dump(tcx: TyCtxt<'_>) -> String {
    let x = X { tcx, enums: Default::default() };
    let mut out = String::new();
    write!(out, "{{\"crate\":{},\"bodies\":[", js(&tcx.crate_name(LOCAL_CRATE).to_string())).unwrap();
    let mut first = true;
    let owners: Vec<DefId> = tcx.body_owners().collect();
    // constants first may be evaluated (and their MIR stolen) by type checking of others
    for d in &owners {
        let kind = match tcx.hir().body_owner_kind(tcx.hir().as_local_hir_id(*d).unwrap()) {
            hir::BodyOwnerKind::Fn => {
                if tcx.is_const_fn(*d) {
                    "constfn"
                } else {
                    "fn"
                }
            }
            hir::BodyOwnerKind::Closure => "closure",
            hir::BodyOwnerKind::Const => "const",
            hir::BodyOwnerKind::Static(_) => "static",
        };
        if tcx.def_key(*d).disambiguated_data.data == rustc::hir::map::DefPathData::Ctor {
            continue;
        }
        let s = if kind == "fn" || kind == "closure" {
            let b = tcx.mir_const(*d).borrow();
            x.body(*d, &b, kind)
        } else {
            x.body(*d, tcx.optimized_mir(*d), kind)
        };
        if !first {
            out.push_str(",\n");
        }
        first = false;
        out.push_str(&s);
    }
    out.push_str("],\n\"adts\":[");
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let krate = tcx.hir().krate();
    for (hid, item) in krate.items.iter() {
        let d = tcx.hir().local_def_id(*hid);
        match item.node {
            hir::ItemKind::Struct(..) | hir::ItemKind::Enum(..) | hir::ItemKind::Union(..) => {
                let a = tcx.adt_def(d);
                let mut vs = vec![];
                let hvs: Vec<Vec<String>> = match &item.node {
                    hir::ItemKind::Struct(vd, _) | hir::ItemKind::Union(vd, _) => vec![vd
                        .fields()
                        .iter()
                        .map(|f| attrs(&f.attrs))
                        .collect()],
                    hir::ItemKind::Enum(e, _) => e
                        .variants
                        .iter()
                        .map(|v| v.data.fields().iter().map(|f| attrs(&f.attrs)).collect())
                        .collect(),
                    _ => vec![],
                };
                for (vi, v) in a.variants.iter_enumerated() {
                    let disc = if a.is_enum() {
                        format!("\"{}\"", a.discriminant_for_variant(tcx, vi).val)
                    } else {
                        "null".into()
                    };
                    let fs = arr(v.fields.iter().enumerate().map(|(i, f)| {
                        let at = hvs
                            .get(vi.index())
                            .and_then(|h| h.get(i))
                            .cloned()
                            .unwrap_or_else(|| "[]".into());
                        format!(
                            "[{},{},{},{}]",
                            js(&f.ident.to_string()),
                            js(&x.ty(tcx.type_of(f.did))),
                            js(&vis(tcx, f.vis)),
                            at
                        )
                    }));
                    vs.push(format!("{{\"name\":{},\"disc\":{},\"fields\":{}}}", js(&v.ident.to_string()), disc, fs));
                }
                adts.push(format!(
                    "{{\"q\":{},\"kind\":\"{}\",\"span\":{},\"attrs\":{},\"variants\":{}}}",
                    js(&x.qn(d)),
                    if a.is_enum() { "enum" } else { "struct" },
                    js(&x.span(item.span)),
                    attrs(&item.attrs),
                    arr(vs)
                ));
            }
            hir::ItemKind::Impl(..) => {
                let tr = tcx.impl_trait_ref(d);
                let items = arr(tcx.associated_items(d).map(|ai| {
                    let k = match ai.kind {
                        ty::AssocKind::Type => js(&x.ty(tcx.type_of(ai.def_id))),
                        _ => "null".into(),
                    };
                    format!("[{},{},{}]", js(&ai.ident.to_string()), js(&x.qn(ai.def_id)), k)
                }));
                impls.push(format!(
                    "{{\"trait\":{},\"trait_ref\":{},\"self\":{},\"items\":{},\"span\":{},\"derived\":{}}}",
                    tr.map(|t| js(&x.qn(t.def_id))).unwrap_or_else(|| "null".into()),
                    tr.map(|t| js(&x.trait_ref(t))).unwrap_or_else(|| "null".into()),
                    js(&x.ty(tcx.type_of(d))),
                    items,
                    js(&x.span(item.span)),
                    item.span.ctxt() != syntax_pos::hygiene::SyntaxContext::root()
                ));
            }
            hir::ItemKind::Trait(..) => {
                let items = arr(tcx.associated_items(d).map(|ai| {
                    format!("[{},{},{}]", js(&ai.ident.to_string()), js(&x.qn(ai.def_id)), ai.defaultness.has_value())
                }));
                traits.push(format!("{{\"q\":{},\"items\":{}}}", js(&x.qn(d)), items));
            }
            _ => {}
        }
    }
    let mut fns = vec![];
    for d in &owners {
        let dk = tcx.def_kind(*d);
        if let Some(DefKind::Fn) | Some(DefKind::Method) = dk {
            let sig = tcx.fn_sig(*d);
            let sig = sig.skip_binder();
            fns.push(format!(
                "[{},{},{},{}]",
                js(&x.qn(*d)),
                js(hvis(tcx, *d)),
                arr(sig.inputs().iter().map(|t| js(&x.ty(t)))),
                js(&x.ty(sig.output()))
            ));
        }
    }
    write!(out, "{}],\n\"impls\":[{}],\n\"traits\":[{}],\n\"fns\":[{}],\n\"enums\":{{{}}}}}", adts.join(",\n"), impls.join(",\n"), traits.join(",\n"), fns.join(",\n"),
        x.enums.borrow().iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")).unwrap();
    out
}

fn attrs(a: &[syntax::ast::Attribute]) -> String {
    arr(a.iter().filter(|a| !a.is_sugared_doc).map(|a| js(&syntax::print::pprust::attribute_to_string(a))))
}
