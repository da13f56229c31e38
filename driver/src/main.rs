//! rustc driver: type-checks the crate it is asked to compile exactly as cargo
//! configured it and, for the crate named in IFC_FACTS_CRATE, writes the
//! resolved program (THIR of every body with resolved callees, type table,
//! ADTs, impls) as JSON to IFC_FACTS_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::{Compiler, Config};
use rustc_middle::thir::{self, BodyTy, ExprId, ExprKind, PatKind, StmtKind, Thir};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for s in it {
        if !first {
            o.push(',');
        }
        first = false;
        o.push_str(&s);
    }
    o.push(']');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        if d.is_local() {
            self.tcx.def_path(d).to_string_no_crate_verbose()
        } else {
            with_no_trimmed_paths!(self.tcx.def_path_str(d))
        }
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        js(&format!("{}:{}", name, lo.line))
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let v: Vec<Ty<'tcx>> = a.types().collect();
        let v: Vec<String> = v.into_iter().map(|t| self.ty(t).to_string()).collect();
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = self.ty_json(t);
        self.ty_out[i] = s;
        i
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("[\"prim\",{}]", js(&t.to_string()))
            }
            ty::Adt(def, args) => {
                let k = self.key(def.did());
                format!("[\"adt\",{},{}]", js(&k), self.args(args))
            }
            ty::Ref(_, t, m) => format!("[\"ref\",{},{}]", self.ty(t), if m.is_mut() { 1 } else { 0 }),
            ty::RawPtr(t, _) => format!("[\"ptr\",{}]", self.ty(t)),
            ty::Array(t, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"array\",{},{}]", self.ty(t), n)
            }
            ty::Slice(t) => format!("[\"slice\",{}]", self.ty(t)),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("[\"tuple\",{}]", arr(v))
            }
            ty::FnDef(d, args) => {
                let d: DefId = d.into();
                let args = args.skip_binder();
                let x = self.fnref(d, args);
                format!("[\"fndef\",{}]", x)
            }
            ty::Closure(d, _) => {
                let d: DefId = d.into();
                format!("[\"closure\",{}]", js(&self.key(d)))
            }
            ty::Param(p) => format!("[\"param\",{}]", js(p.name.as_str())),
            ty::FnPtr(..) => {
                let sig = t.fn_sig(self.tcx).skip_binder();
                let v: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                format!("[\"fnptr\",{},{}]", arr(v), self.ty(sig.output()))
            }
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.key(d)).unwrap_or_default();
                format!("[\"dyn\",{}]", js(&p))
            }
            ty::Alias(..) => {
                let s = with_no_trimmed_paths!(t.to_string());
                format!("[\"alias\",{}]", js(&s))
            }
            _ => format!("[\"other\",{}]", js(&with_no_trimmed_paths!(t.to_string()))),
        }
    }
    /// {d: key, a: [types], tr: trait key?, self: ty of impl?, n: name}
    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let mut o = format!("{{\"d\":{},\"a\":{}", js(&self.key(d)), self.args(args));
        if let Some(n) = self.tcx.opt_item_name(d) {
            let _ = write!(o, ",\"n\":{}", js(n.as_str()));
        }
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", js(&self.key(t)));
        } else if let Some(im) = self.tcx.impl_of_assoc(d) {
            let st = self.tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(o, ",\"impl\":{},\"self\":{}", js(&self.key(im)), st);
        }
        o.push('}');
        o
    }
    /// resolve a trait method call in the body's own environment
    fn resolved(&mut self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> Option<String> {
        if self.tcx.trait_of_assoc(d).is_none() {
            return None;
        }
        let args = self.tcx.erase_and_anonymize_regions(args);
        match ty::Instance::try_resolve(self.tcx, env, d, args) {
            Ok(Some(i)) => {
                if i.def_id() == d {
                    return None;
                }
                let x = self.fnref(i.def_id(), i.args);
                Some(x)
            }
            _ => None,
        }
    }
}

struct Body<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    th: &'a Thir<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn var(&self, v: thir::LocalVarId) -> String {
        format!("\"{}.{}\"", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32())
    }
    fn exprs(&mut self, v: &[ExprId]) -> String {
        let v: Vec<String> = v.iter().map(|e| self.expr(*e)).collect();
        arr(v)
    }
    fn opt(&mut self, e: Option<ExprId>) -> String {
        match e {
            Some(e) => self.expr(e),
            None => "null".into(),
        }
    }
    fn block(&mut self, b: thir::BlockId) -> String {
        let b = &self.th.blocks[b];
        let mut st = Vec::new();
        for s in b.stmts.iter() {
            match &self.th.stmts[*s].kind {
                StmtKind::Expr { expr, .. } => st.push(self.expr(*expr)),
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(pattern);
                    let i = self.opt(*initializer);
                    let e = match else_block {
                        Some(b) => self.block(*b),
                        None => "null".into(),
                    };
                    st.push(format!("{{\"k\":\"LetStmt\",\"p\":{},\"i\":{},\"e\":{}}}", p, i, e));
                }
            }
        }
        let e = self.opt(b.expr);
        format!("{{\"k\":\"Block\",\"s\":{},\"e\":{}}}", arr(st), e)
    }
    fn pat(&mut self, p: &thir::Pat<'tcx>) -> String {
        let t = self.cx.ty(p.ty);
        match &p.kind {
            PatKind::Wild | PatKind::Missing => "{\"k\":\"Wild\"}".into(),
            PatKind::Never => "{\"k\":\"NeverP\"}".into(),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let s = match subpattern {
                    Some(s) => self.pat(s),
                    None => "null".into(),
                };
                let byref = match mode.0 {
                    rustc_hir::ByRef::No => 0,
                    rustc_hir::ByRef::Yes(_, m) => if m.is_mut() { 2 } else { 1 },
                };
                format!(
                    "{{\"k\":\"Bind\",\"n\":{},\"v\":{},\"r\":{},\"s\":{},\"t\":{}}}",
                    js(name.as_str()), self.var(*var), byref, s, t
                )
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let v = adt_def.variant(*variant_index);
                let f: Vec<String> = subpatterns
                    .iter()
                    .map(|fp| {
                        let n = v.fields[fp.field].name.to_string();
                        format!("[{},{}]", js(&n), self.pat(&fp.pattern))
                    })
                    .collect();
                let k = self.cx.key(adt_def.did());
                format!("{{\"k\":\"Variant\",\"a\":{},\"v\":{},\"f\":{}}}", js(&k), js(v.name.as_str()), arr(f))
            }
            PatKind::Leaf { subpatterns } => {
                let f: Vec<String> = subpatterns
                    .iter()
                    .map(|fp| {
                        let n = match p.ty.kind() {
                            ty::Adt(d, _) => d.non_enum_variant().fields[fp.field].name.to_string(),
                            _ => fp.field.as_usize().to_string(),
                        };
                        format!("[{},{}]", js(&n), self.pat(&fp.pattern))
                    })
                    .collect();
                format!("{{\"k\":\"Leaf\",\"f\":{},\"t\":{}}}", arr(f), t)
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                format!("{{\"k\":\"DerefP\",\"s\":{}}}", self.pat(subpattern))
            }
            PatKind::Constant { value } => {
                format!("{{\"k\":\"Const\",\"c\":{},\"t\":{}}}", js(&format!("{}", value)), t)
            }
            PatKind::Range(r) => format!("{{\"k\":\"Range\",\"c\":{},\"t\":{}}}", js(&format!("{}", r)), t),
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a: Vec<String> = prefix.iter().map(|p| self.pat(p)).collect();
                let b = match slice {
                    Some(s) => self.pat(s),
                    None => "null".into(),
                };
                let c: Vec<String> = suffix.iter().map(|p| self.pat(p)).collect();
                format!("{{\"k\":\"SliceP\",\"pre\":{},\"mid\":{},\"suf\":{}}}", arr(a), b, arr(c))
            }
            PatKind::Or { pats } => {
                let a: Vec<String> = pats.iter().map(|p| self.pat(p)).collect();
                format!("{{\"k\":\"Or\",\"a\":{}}}", arr(a))
            }
            PatKind::Guard { subpattern, condition } => {
                let a = self.pat(subpattern);
                let b = self.expr(*condition);
                format!("{{\"k\":\"GuardP\",\"s\":{},\"c\":{}}}", a, b)
            }
            PatKind::Error(_) => "{\"k\":\"Wild\"}".into(),
        }
    }
    fn arms(&mut self, arms: &[thir::ArmId]) -> String {
        let v: Vec<String> = arms
            .iter()
            .map(|a| {
                let a = &self.th.arms[*a];
                let p = self.pat(&a.pattern);
                let g = self.opt(a.guard);
                let b = self.expr(a.body);
                format!("{{\"p\":{},\"g\":{},\"b\":{}}}", p, g, b)
            })
            .collect();
        arr(v)
    }
    fn node(&mut self, k: &str, t: Ty<'tcx>, rest: String) -> String {
        let t = self.cx.ty(t);
        if rest.is_empty() {
            format!("{{\"k\":\"{}\",\"t\":{}}}", k, t)
        } else {
            format!("{{\"k\":\"{}\",\"t\":{},{}}}", k, t, rest)
        }
    }
    fn expr(&mut self, id: ExprId) -> String {
        let th = self.th;
        let e = &th.exprs[id];
        let t = e.ty;
        match &e.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                let s = self.expr(*value);
                match &th.exprs[*value].kind {
                    ExprKind::Loop { .. } | ExprKind::Block { .. } => {
                        format!("{},\"sc\":{}}}", &s[..s.len() - 1], js(&format!("{:?}", region_scope)))
                    }
                    _ => s,
                }
            }
            ExprKind::ByUse { expr, .. } => self.expr(*expr),
            ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source }
            | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source } | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => self.expr(*source),
            ExprKind::Reborrow { source, .. } => self.expr(*source),
            ExprKind::If { cond, then, else_opt, .. } => {
                let (a, b, c) = (self.expr(*cond), self.expr(*then), self.opt(*else_opt));
                self.node("If", t, format!("\"c\":{},\"a\":{},\"b\":{}", a, b, c))
            }
            ExprKind::Call { ty: fty, fun, args, .. } => {
                let a = self.exprs(args);
                let sp = self.cx.span(e.span);
                match *fty.kind() {
                    ty::FnDef(d, ga) => {
                        let d: DefId = d.into();
                        let ga = ga.skip_binder();
                        let f = self.cx.fnref(d, ga);
                        let r = match self.cx.resolved(self.env, d, ga) {
                            Some(r) => format!(",\"r\":{}", r),
                            None => String::new(),
                        };
                        self.node("Call", t, format!("\"f\":{}{},\"args\":{},\"sp\":{}", f, r, a, sp))
                    }
                    _ => {
                        let f = self.expr(*fun);
                        self.node("CallPtr", t, format!("\"fun\":{},\"args\":{},\"sp\":{}", f, a, sp))
                    }
                }
            }
            ExprKind::Deref { arg } => {
                let a = self.expr(*arg);
                self.node("Deref", t, format!("\"e\":{}", a))
            }
            ExprKind::Binary { op, lhs, rhs } => {
                let (a, b) = (self.expr(*lhs), self.expr(*rhs));
                let sp = self.cx.span(e.span);
                self.node("Binary", t, format!("\"op\":\"{:?}\",\"l\":{},\"r\":{},\"sp\":{}", op, a, b, sp))
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                let (a, b) = (self.expr(*lhs), self.expr(*rhs));
                self.node("Logical", t, format!("\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, a, b))
            }
            ExprKind::Unary { op, arg } => {
                let a = self.expr(*arg);
                let sp = self.cx.span(e.span);
                self.node("Unary", t, format!("\"op\":\"{:?}\",\"e\":{},\"sp\":{}", op, a, sp))
            }
            ExprKind::Cast { source } => {
                let a = self.expr(*source);
                self.node("Cast", t, format!("\"e\":{}", a))
            }
            ExprKind::PointerCoercion { source, .. } => {
                let a = self.expr(*source);
                self.node("Coerce", t, format!("\"e\":{}", a))
            }
            ExprKind::Loop { body } => {
                let a = self.expr(*body);
                self.node("Loop", t, format!("\"e\":{}", a))
            }
            ExprKind::LoopMatch { .. } => self.node("Unsupported", t, String::new()),
            ExprKind::Let { expr, pat } => {
                let a = self.expr(*expr);
                let p = self.pat(pat);
                self.node("Let", t, format!("\"e\":{},\"p\":{}", a, p))
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                let a = self.expr(*scrutinee);
                let b = self.arms(arms);
                let src = format!("{:?}", match_source);
                self.node("Match", t, format!("\"e\":{},\"arms\":{},\"src\":{}", a, b, js(&src)))
            }
            ExprKind::Block { block } => {
                let b = self.block(*block);
                let ti = self.cx.ty(t);
                format!("{},\"t\":{}}}", &b[..b.len() - 1], ti)
            }
            ExprKind::Assign { lhs, rhs } => {
                let (a, b) = (self.expr(*lhs), self.expr(*rhs));
                self.node("Assign", t, format!("\"l\":{},\"r\":{}", a, b))
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                let (a, b) = (self.expr(*lhs), self.expr(*rhs));
                let sp = self.cx.span(e.span);
                self.node("AssignOp", t, format!("\"op\":\"{:?}\",\"l\":{},\"r\":{},\"sp\":{}", op, a, b, sp))
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = th.exprs[*lhs].ty;
                let n = match lt.kind() {
                    ty::Adt(d, _) => d.variant(*variant_index).fields[*name].name.to_string(),
                    _ => name.as_usize().to_string(),
                };
                let own = match lt.kind() {
                    ty::Adt(d, _) => js(&self.cx.key(d.did())),
                    _ => "null".into(),
                };
                let a = self.expr(*lhs);
                self.node("Field", t, format!("\"e\":{},\"n\":{},\"o\":{}", a, js(&n), own))
            }
            ExprKind::Index { lhs, index } => {
                let (a, b) = (self.expr(*lhs), self.expr(*index));
                let sp = self.cx.span(e.span);
                self.node("Index", t, format!("\"e\":{},\"i\":{},\"sp\":{}", a, b, sp))
            }
            ExprKind::VarRef { id } => {
                let v = self.var(*id);
                self.node("Var", t, format!("\"v\":{}", v))
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                let v = self.var(*var_hir_id);
                self.node("Var", t, format!("\"v\":{},\"up\":1", v))
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                let a = self.expr(*arg);
                let m = borrow_kind.is_two_phase_borrow() || format!("{:?}", borrow_kind).contains("Mut");
                self.node("Borrow", t, format!("\"e\":{},\"m\":{}", a, m))
            }
            ExprKind::RawBorrow { arg, .. } => {
                let a = self.expr(*arg);
                self.node("Borrow", t, format!("\"e\":{},\"m\":true", a))
            }
            ExprKind::Break { label, value } => {
                let v = self.opt(*value);
                let _ = label;
                self.node("Break", t, format!("\"e\":{},\"l\":{}", v, js(&format!("{:?}", label))))
            }
            ExprKind::Continue { label } => {
                self.node("Continue", t, format!("\"l\":{}", js(&format!("{:?}", label))))
            }
            ExprKind::ConstContinue { .. } => self.node("Unsupported", t, String::new()),
            ExprKind::Return { value } => {
                let v = self.opt(*value);
                self.node("Return", t, format!("\"e\":{}", v))
            }
            ExprKind::Become { value } => {
                let v = self.expr(*value);
                self.node("Return", t, format!("\"e\":{}", v))
            }
            ExprKind::ConstBlock { did, .. } => {
                let k = self.cx.key(*did);
                self.node("Const", t, format!("\"d\":{}", js(&k)))
            }
            ExprKind::Repeat { value, count } => {
                let n = count.try_to_target_usize(self.cx.tcx).map(|x| x as i64).unwrap_or(-1);
                let a = self.expr(*value);
                self.node("Repeat", t, format!("\"e\":{},\"n\":{}", a, n))
            }
            ExprKind::Array { fields } => {
                let a = self.exprs(fields);
                self.node("Array", t, format!("\"a\":{}", a))
            }
            ExprKind::Tuple { fields } => {
                let a = self.exprs(fields);
                self.node("Tuple", t, format!("\"a\":{}", a))
            }
            ExprKind::Adt(a) => {
                let v = a.adt_def.variant(a.variant_index);
                let f: Vec<String> = a
                    .fields
                    .iter()
                    .map(|fe| {
                        let x = self.expr(fe.expr);
                        format!("[{},{}]", js(v.fields[fe.name].name.as_str()), x)
                    })
                    .collect();
                let b = match &a.base {
                    thir::AdtExprBase::Base(fi) => self.expr(fi.base),
                    _ => "null".into(),
                };
                let k = self.cx.key(a.adt_def.did());
                let sp = self.cx.span(e.span);
                self.node("Adt", t, format!(
                    "\"a\":{},\"v\":{},\"f\":{},\"base\":{},\"sp\":{}",
                    js(&k), js(v.name.as_str()), arr(f), b, sp
                ))
            }
            ExprKind::Closure(c) => {
                let k = self.cx.key(c.closure_id.to_def_id());
                let b = body_json(self.cx, c.closure_id);
                self.node("Closure", t, format!("\"d\":{},\"b\":{}", js(&k), b.unwrap_or("null".into())))
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind;
                let s = match &lit.node {
                    LitKind::Str(s, _) => format!("\"lk\":\"str\",\"v\":{}", js(s.as_str())),
                    LitKind::ByteStr(b, _) | LitKind::CStr(b, _) => {
                        let v: Vec<String> = b.as_byte_str().iter().map(|x| x.to_string()).collect();
                        format!("\"lk\":\"bytes\",\"v\":{}", arr(v))
                    }
                    LitKind::Byte(b) => format!("\"lk\":\"int\",\"v\":{}", b),
                    LitKind::Char(c) => format!("\"lk\":\"char\",\"v\":{}", js(&c.to_string())),
                    LitKind::Int(i, _) => format!("\"lk\":\"int\",\"v\":{}{}", if *neg { "-" } else { "" }, i.get()),
                    LitKind::Float(f, _) => format!("\"lk\":\"float\",\"v\":{}", js(&format!("{}{}", if *neg { "-" } else { "" }, f))),
                    LitKind::Bool(b) => format!("\"lk\":\"bool\",\"v\":{}", b),
                    LitKind::Err(_) => "\"lk\":\"err\",\"v\":null".into(),
                };
                self.node("Lit", t, s)
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                self.node("Lit", t, format!("\"lk\":\"scalar\",\"v\":{}", js(&format!("{:?}", lit))))
            }
            ExprKind::ZstLiteral { .. } => self.node("Zst", t, String::new()),
            ExprKind::NamedConst { def_id, args, .. } => {
                let f = self.cx.fnref(*def_id, args);
                self.node("NamedConst", t, format!("\"f\":{}", f))
            }
            ExprKind::ConstParam { param, .. } => {
                self.node("ConstParam", t, format!("\"n\":{}", js(param.name.as_str())))
            }
            ExprKind::StaticRef { def_id, .. } => {
                let k = self.cx.key(*def_id);
                self.node("Static", t, format!("\"d\":{}", js(&k)))
            }
            ExprKind::InlineAsm(_) | ExprKind::ThreadLocalRef(_) | ExprKind::Yield { .. } => {
                self.node("Unsupported", t, String::new())
            }
        }
    }
}

fn body_json<'tcx>(cx: &mut Cx<'tcx>, ld: LocalDefId) -> Option<String> {
    let tcx = cx.tcx;
    let (th, root) = tcx.thir_body(ld).ok()?;
    let th: Thir<'tcx> = th.borrow().clone();
    let env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id_local(ld));
    let out = match th.body_type {
        BodyTy::Fn(sig) => {
            let o = sig.output();
            cx.ty(o)
        }
        BodyTy::Const(t) | BodyTy::GlobalAsm(t) => cx.ty(t),
    };
    let mut b = Body { cx, th: &th, env };
    let mut ps = Vec::new();
    for p in th.params.iter() {
        let pat = match &p.pat {
            Some(p) => b.pat(p),
            None => "null".into(),
        };
        let t = b.cx.ty(p.ty);
        ps.push(format!("{{\"p\":{},\"t\":{}}}", pat, t));
    }
    let e = b.expr(root);
    Some(format!("{{\"params\":{},\"e\":{},\"out\":{}}}", arr(ps), e, out))
}

fn generics<'tcx>(cx: &mut Cx<'tcx>, d: DefId) -> String {
    let tcx = cx.tcx;
    let g = tcx.generics_of(d);
    let mut names = Vec::new();
    let mut cur = Some(g);
    while let Some(g) = cur {
        let mut v: Vec<String> = g
            .own_params
            .iter()
            .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
            .map(|p| js(p.name.as_str()))
            .collect();
        v.extend(names);
        names = v;
        cur = g.parent.map(|p| tcx.generics_of(p));
    }
    let mut preds = Vec::new();
    let ps = tcx.clauses_of(d).instantiate_identity(tcx);
    for (c, _) in ps {
        let c = c.skip_norm_wip();
        if let ty::ClauseKind::Trait(tp) = c.kind().skip_binder() {
            let t = cx.key(tp.trait_ref.def_id);
            let a = cx.args(tp.trait_ref.args);
            preds.push(format!("[{},{}]", js(&t), a));
        }
    }
    format!("\"gen\":{},\"preds\":{}", arr(names), arr(preds))
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut Config) {
        c.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("IFC_FACTS_CRATE").unwrap_or_default();
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let is_test = tcx.sess.opts.test;
        if name.as_str() != want || is_test {
            return Compilation::Continue;
        }
        if !tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("Rlib") || format!("{:?}", t).contains("Lib")) {
            return Compilation::Continue;
        }
        let out = std::env::var("IFC_FACTS_OUT").expect("IFC_FACTS_OUT");
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: Vec::new() };
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        let mut fns = Vec::new();
        let mut traits = Vec::new();
        let mut consts = Vec::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let mut vs = Vec::new();
                    for v in a.variants() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                let t = cx.ty(t);
                                let p = tcx.visibility(f.did).is_public();
                                format!("[{},{},{}]", js(f.name.as_str()), t, p)
                            })
                            .collect();
                        vs.push(format!("[{},{}]", js(v.name.as_str()), arr(fs)));
                    }
                    let k = cx.key(d);
                    let g = generics(&mut cx, d);
                    let sp = cx.span(tcx.def_span(d));
                    let p = tcx.effective_visibilities(()).is_reachable(ld);
                    adts.push(format!(
                        "{{\"d\":{},\"p\":{},\"kind\":\"{:?}\",\"vs\":{},{},\"sp\":{},\"pub\":{}}}",
                        js(&k), js(&with_no_trimmed_paths!(tcx.def_path_str(d))), a.adt_kind(), arr(vs), g, sp, p
                    ));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    let tr = if tcx.impl_opt_trait_ref(d).is_some() {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        format!("\"tr\":{},\"ta\":{}", js(&cx.key(tr.def_id)), cx.args(tr.args))
                    } else {
                        "\"tr\":null,\"ta\":[]".into()
                    };
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter_map(|i| {
                            let n = i.opt_name()?;
                            let extra = match i.kind {
                                ty::AssocKind::Type { .. } => {
                                    let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                                    format!("{}", cx.ty(t))
                                }
                                _ => "null".into(),
                            };
                            Some(format!("[{},{},{}]", js(n.as_str()), js(&cx.key(i.def_id)), extra))
                        })
                        .collect();
                    let k = cx.key(d);
                    let g = generics(&mut cx, d);
                    let sp = cx.span(tcx.def_span(d));
                    let drv = tcx.is_automatically_derived(d);
                    impls.push(format!(
                        "{{\"d\":{},\"self\":{},{},\"items\":{},{},\"sp\":{},\"derived\":{}}}",
                        js(&k), st, tr, arr(items), g, sp, drv
                    ));
                }
                DefKind::Trait => {
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter_map(|i| {
                            let n = i.opt_name()?;
                            Some(format!("[{},{},{}]", js(n.as_str()), js(&cx.key(i.def_id)), i.defaultness(tcx).has_value()))
                        })
                        .collect();
                    let k = cx.key(d);
                    let g = generics(&mut cx, d);
                    traits.push(format!("{{\"d\":{},\"items\":{},{}}}", js(&k), arr(items), g));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let k = cx.key(d);
                    let g = generics(&mut cx, d);
                    let sp = cx.span(tcx.def_span(d));
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
                    let o = cx.ty(sig.output());
                    let has = tcx.hir_maybe_body_owned_by(ld).is_some();
                    let b = if has { body_json(&mut cx, ld).unwrap_or("null".into()) } else { "null".into() };
                    let im = tcx.impl_of_assoc(d).map(|i| js(&cx.key(i))).unwrap_or("null".into());
                    let tr = tcx.trait_of_assoc(d).map(|i| js(&cx.key(i))).unwrap_or("null".into());
                    let p = tcx.effective_visibilities(()).is_reachable(ld);
                    let uns = !sig.safety().is_safe();
                    fns.push(format!(
                        "{{\"d\":{},\"n\":{},\"p\":{},\"impl\":{},\"trait\":{},\"ins\":{},\"out\":{},{},\"sp\":{},\"pub\":{},\"unsafe\":{},\"b\":{}}}",
                        js(&k), js(tcx.item_name(d).as_str()), js(&with_no_trimmed_paths!(tcx.def_path_str(d))),
                        im, tr, arr(ins), o, g, sp, p, uns, b
                    ));
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => {
                    if tcx.hir_maybe_body_owned_by(ld).is_none() {
                        continue;
                    }
                    let k = cx.key(d);
                    let im = tcx.opt_parent(d).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { .. })).map(|i| js(&cx.key(i))).unwrap_or("null".into());
                    let b = match tcx.def_kind(d) {
                        DefKind::AnonConst => "null".to_string(),
                        _ => body_json(&mut cx, ld).unwrap_or("null".into()),
                    };
                    let n = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
                    consts.push(format!("{{\"d\":{},\"n\":{},\"impl\":{},\"b\":{},\"static\":{}}}", js(&k), js(&n), im, b,
                        matches!(tcx.def_kind(d), DefKind::Static{..})));
                }
                _ => {}
            }
        }
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"crate\":{},\n\"adts\":[{}],\n\"traits\":[{}],\n\"impls\":[{}],\n\"consts\":[{}],\n\"fns\":[{}],\n\"tys\":[{}]}}\n",
            js(name.as_str()), adts.join(",\n"), traits.join(",\n"), impls.join(",\n"), consts.join(",\n"), fns.join(",\n"), cx.ty_out.join(",\n")
        );
        std::fs::write(&out, s).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER argv[1] is the path of the real rustc
    if args.len() > 1 && !args[1].starts_with('-') && args[1].contains("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
