use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::BorrowKind;
use rustc_middle::thir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_list: Vec<J>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

fn obj(v: Vec<(&'static str, J)>) -> J {
    J::Obj(v)
}

/// The name used for a definition everywhere in the dump.
pub fn path(tcx: TyCtxt<'_>, did: DefId) -> String {
    with_no_trimmed_paths!({
        let kind = tcx.def_kind(did);
        if let Some(p) = tcx.opt_parent(did) {
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                let name = tcx.item_name(did);
                let selfty = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    return format!("<{} as {}>::{}", head(tcx, selfty), path(tcx, tr.def_id), name);
                }
                return format!("{}::{}", head(tcx, selfty), name);
            }
            if kind == DefKind::Closure {
                return format!("{}::{{closure}}", path(tcx, tcx.typeck_root_def_id(did)));
            }
            if matches!(kind, DefKind::Fn | DefKind::Struct | DefKind::Enum | DefKind::Trait | DefKind::Const { .. })
                && matches!(tcx.def_kind(p), DefKind::Fn | DefKind::AssocFn)
            {
                return format!("{}::{}", path(tcx, p), tcx.item_name(did));
            }
        }
        let krate = tcx.crate_name(did.krate).to_string();
        if matches!(&krate[..], "core" | "alloc" | "std") {
            return tcx.def_path_str(did);
        }
        let mut p = krate;
        for d in tcx.def_path(did).data {
            if let Some(n) = d.data.get_opt_name() {
                p.push_str("::");
                p.push_str(n.as_str());
            }
        }
        p
    })
}

/// The head of a self type: the path of its ADT, or its printed form.
fn head<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(a, _) => path(tcx, a.did()),
        ty::Ref(_, t, _) => format!("&{}", head(tcx, *t)),
        ty::Tuple(ts) if ts.is_empty() => "()".into(),
        ty::Tuple(ts) => format!("({})", ts.iter().map(|t| head(tcx, t)).collect::<Vec<_>>().join(", ")),
        ty::Array(t, n) => format!("[{}; {}]", head(tcx, *t), n),
        _ => tstr(t),
    }
}

fn tstr(t: Ty<'_>) -> String {
    with_resolve_crate_name!(with_no_trimmed_paths!(t.to_string()))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let s = tstr(t);
        let mut fields: Vec<(&'static str, J)> = vec![("s", s.into())];
        let peeled = t.peel_refs();
        if let ty::Adt(a, args) = peeled.kind() {
            fields.push(("adt", path(self.tcx, a.did()).into()));
            let a: Vec<J> = args
                .iter()
                .filter_map(|a| a.as_type())
                .map(|t| J::Int(self.ty(t) as i64))
                .collect();
            fields.push(("args", J::Arr(a)));
        } else {
            let k = match peeled.kind() {
                ty::Tuple(ts) => {
                    let a: Vec<J> = ts.iter().map(|t| J::Int(self.ty(t) as i64)).collect();
                    fields.push(("args", J::Arr(a)));
                    "tuple"
                }
                ty::Array(t, _) => {
                    let a = self.ty(*t);
                    fields.push(("args", J::Arr(vec![a.into()])));
                    "array"
                }
                ty::Slice(t) => {
                    let a = self.ty(*t);
                    fields.push(("args", J::Arr(vec![a.into()])));
                    "slice"
                }
                ty::Param(_) => "param",
                ty::Alias(..) => "alias",
                ty::FnDef(..) => "fndef",
                ty::FnPtr(..) => "fnptr",
                ty::Closure(..) => "closure",
                ty::Never => "never",
                ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Str | ty::Float(_) => "prim",
                ty::Dynamic(..) => "dyn",
                ty::Error(_) => "error",
                _ => "other",
            };
            fields.push(("k", k.into()));
        }
        if let ty::Closure(did, _) = peeled.kind() {
            if let Some(l) = did.as_local() {
                fields.push(("closure", self.cid(l).into()));
            }
        }
        let i = self.type_list.len();
        self.type_list.push(obj(fields));
        self.types.insert(t, i);
        i
    }
    fn cid(&self, l: LocalDefId) -> usize {
        l.local_def_index.as_usize()
    }
    fn line(&mut self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        J::Int(lo.line as i64)
    }
    fn file(&mut self, sp: Span) -> usize {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        if let Some(i) = self.files.get(&name) {
            return *i;
        }
        let i = self.file_list.len();
        self.files.insert(name.clone(), i);
        self.file_list.push(name);
        i
    }

    fn var(&self, v: LocalVarId) -> J {
        J::Str(format!("{}_{}", v.0.owner.def_id.local_def_index.as_usize(), v.0.local_id.as_usize()))
    }

    fn pat(&mut self, p: &Pat<'tcx>) -> J {
        let t = self.ty(p.ty);
        let mut f: Vec<(&'static str, J)> = vec![];
        match &p.kind {
            PatKind::Missing | PatKind::Wild => f.push(("k", "_".into())),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                f.push(("k", "bind".into()));
                f.push(("name", name.to_string().into()));
                f.push(("v", self.var(*var)));
                f.push(("ref", matches!(mode.0, rustc_hir::ByRef::Yes(..)).into()));
                f.push(("mut", mode.1.is_mut().into()));
                f.push((
                    "refmut",
                    matches!(mode.0, rustc_hir::ByRef::Yes(_, rustc_hir::Mutability::Mut)).into(),
                ));
                if let Some(s) = subpattern {
                    f.push(("sub", self.pat(s)));
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let v = &adt_def.variants()[*variant_index];
                f.push(("k", "variant".into()));
                f.push(("adt", path(self.tcx, adt_def.did()).into()));
                f.push(("variant", v.name.to_string().into()));
                let mut a = vec![];
                for s in subpatterns {
                    let n = v.fields[s.field].name.to_string();
                    a.push(J::Arr(vec![n.into(), self.pat(&s.pattern)]));
                }
                f.push(("sub", J::Arr(a)));
            }
            PatKind::Leaf { subpatterns } => {
                f.push(("k", "leaf".into()));
                let mut a = vec![];
                for s in subpatterns {
                    let n = match p.ty.kind() {
                        ty::Adt(d, _) if !d.is_enum() => d.non_enum_variant().fields[s.field].name.to_string(),
                        _ => s.field.as_usize().to_string(),
                    };
                    a.push(J::Arr(vec![n.into(), self.pat(&s.pattern)]));
                }
                if let ty::Adt(d, _) = p.ty.kind() {
                    f.push(("adt", path(self.tcx, d.did()).into()));
                }
                f.push(("sub", J::Arr(a)));
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                f.push(("k", "deref".into()));
                f.push(("sub", self.pat(subpattern)));
            }
            PatKind::Constant { value } => {
                f.push(("k", "const".into()));
                f.push(("val", with_no_trimmed_paths!(format!("{value}")).into()));
            }
            PatKind::Range(r) => {
                f.push(("k", "range".into()));
                f.push(("val", format!("{r}").into()));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                f.push(("k", "slice".into()));
                let a = prefix.iter().map(|p| self.pat(p)).collect::<Vec<_>>();
                f.push(("prefix", J::Arr(a)));
                if let Some(s) = slice {
                    f.push(("slice", self.pat(s)));
                }
                let a = suffix.iter().map(|p| self.pat(p)).collect::<Vec<_>>();
                f.push(("suffix", J::Arr(a)));
            }
            PatKind::Or { pats } => {
                f.push(("k", "or".into()));
                let a = pats.iter().map(|p| self.pat(p)).collect::<Vec<_>>();
                f.push(("sub", J::Arr(a)));
            }
            PatKind::Guard { subpattern, .. } => {
                f.push(("k", "guard".into()));
                f.push(("sub", self.pat(subpattern)));
            }
            PatKind::Never | PatKind::Error(_) => f.push(("k", "never".into())),
        }
        f.push(("t", t.into()));
        obj(f)
    }

    fn block(&mut self, th: &Thir<'tcx>, b: BlockId, owner: LocalDefId) -> J {
        let bl = &th.blocks[b];
        let mut stmts = vec![];
        for s in bl.stmts.iter() {
            match &th.stmts[*s].kind {
                StmtKind::Expr { expr, .. } => {
                    let e = self.expr(th, *expr, owner);
                    stmts.push(obj(vec![("k", "expr".into()), ("e", e)]));
                }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let mut f = vec![("k", "let".into()), ("pat", self.pat(pattern))];
                    if let Some(i) = initializer {
                        f.push(("init", self.expr(th, *i, owner)));
                    }
                    if let Some(e) = else_block {
                        f.push(("else", self.block(th, *e, owner)));
                    }
                    stmts.push(obj(f));
                }
            }
        }
        let mut f = vec![("k", "Block".into()), ("stmts", J::Arr(stmts))];
        if let Some(e) = bl.expr {
            f.push(("e", self.expr(th, e, owner)));
        }
        match bl.safety_mode {
            BlockSafety::ExplicitUnsafe(_) => f.push(("unsafe", true.into())),
            _ => {}
        }
        if bl.targeted_by_break {
            f.push(("label", self.label(bl.region_scope)));
        }
        f.push(("l", self.line(bl.span)));
        obj(f)
    }

    fn label(&self, s: rustc_middle::middle::region::Scope) -> J {
        J::Int(s.local_id.as_usize() as i64)
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, owner: LocalDefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut f = vec![("fn", J::Str(path(tcx, did)))];
        let ts: Vec<J> = args
            .iter()
            .filter_map(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => Some(J::Int(self.ty(t) as i64)),
                ty::GenericArgKind::Const(c) => Some(J::Str(with_no_trimmed_paths!(c.to_string()))),
                _ => None,
            })
            .collect();
        if !ts.is_empty() {
            f.push(("targs", J::Arr(ts)));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(did) {
            f.push(("ctor", true.into()));
            return f;
        }
        if let Some(l) = did.as_local() {
            f.push(("did", self.cid(l).into()));
        }
        if let Some(tr) = tcx.trait_of_assoc(did) {
            f.push(("trait", path(tcx, tr).into()));
            if !args.has_escaping_bound_vars() && !args.references_error() {
                let env = ty::TypingEnv::post_analysis(tcx, owner.to_def_id());
                let args = tcx.erase_and_anonymize_regions(args);
                if matches!(tcx.item_name(tr).as_str(), "Iterator" | "IntoIterator") {
                    let item = tcx.associated_items(tr).in_definition_order().find(|i| i.is_type() && i.name().as_str() == "Item");
                    if let Some(item) = item {
                        let p = Ty::new_projection(tcx, ty::IsRigid::No, item.def_id, [args[0]]);
                        if let Ok(t) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(p)) {
                            f.push(("item", J::Int(self.ty(t) as i64)));
                        }
                    }
                }
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, did, args) {
                    let rd = inst.def_id();
                    if rd != did {
                        f.push(("res", path(tcx, rd).into()));
                        if let Some(l) = rd.as_local() {
                            f.push(("rdid", self.cid(l).into()));
                        }
                    }
                }
            }
        }
        f
    }

    fn expr(&mut self, th: &Thir<'tcx>, id: ExprId, owner: LocalDefId) -> J {
        let e = &th.exprs[id];
        let mut f: Vec<(&'static str, J)> = vec![];
        match &e.kind {
            ExprKind::Scope { value, .. } => return self.expr(th, *value, owner),
            ExprKind::ByUse { expr, .. } => return self.expr(th, *expr, owner),
            ExprKind::ValueExpr { source }
            | ExprKind::NeverToAny { source }
            | ExprKind::PointerCoercion { source, .. }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => return self.expr(th, *source, owner),
            ExprKind::Reborrow { source, .. } => return self.expr(th, *source, owner),
            ExprKind::If { cond, then, else_opt, .. } => {
                f.push(("k", "If".into()));
                f.push(("c", self.expr(th, *cond, owner)));
                f.push(("then", self.expr(th, *then, owner)));
                if let Some(x) = else_opt {
                    f.push(("else", self.expr(th, *x, owner)));
                }
            }
            ExprKind::Call { fun, args, from_hir_call, .. } => {
                f.push(("k", "Call".into()));
                let mut fe = *fun;
                loop {
                    match &th.exprs[fe].kind {
                        ExprKind::Scope { value, .. } => fe = *value,
                        ExprKind::ByUse { expr, .. } => fe = *expr,
                        ExprKind::ValueExpr { source } | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => fe = *source,
                        _ => break,
                    }
                }
                let fty = th.exprs[fe].ty;
                match (fty.kind(), &th.exprs[fe].kind) {
                    (ty::FnDef(did, ga), ExprKind::ZstLiteral { .. } | ExprKind::NamedConst { .. }) => {
                        let ga = ga.skip_binder();
                        f.extend(self.callee(*did, ga, owner));
                    }
                    _ => {
                        f.push(("f", self.expr(th, fe, owner)));
                    }
                }
                if !*from_hir_call {
                    f.push(("op", true.into()));
                }
                let a = args.iter().map(|a| self.expr(th, *a, owner)).collect::<Vec<_>>();
                f.push(("args", J::Arr(a)));
            }
            ExprKind::Deref { arg } => {
                f.push(("k", "Deref".into()));
                f.push(("e", self.expr(th, *arg, owner)));
            }
            ExprKind::Binary { op, lhs, rhs } => {
                f.push(("k", "Binary".into()));
                f.push(("op", format!("{op:?}").into()));
                f.push(("a", self.expr(th, *lhs, owner)));
                f.push(("b", self.expr(th, *rhs, owner)));
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                f.push(("k", "Logical".into()));
                f.push(("op", format!("{op:?}").into()));
                f.push(("a", self.expr(th, *lhs, owner)));
                f.push(("b", self.expr(th, *rhs, owner)));
            }
            ExprKind::Unary { op, arg } => {
                f.push(("k", "Unary".into()));
                f.push(("op", format!("{op:?}").into()));
                f.push(("e", self.expr(th, *arg, owner)));
            }
            ExprKind::Cast { source } => {
                f.push(("k", "Cast".into()));
                f.push(("e", self.expr(th, *source, owner)));
            }
            ExprKind::Loop { body } => {
                f.push(("k", "Loop".into()));
                f.push(("e", self.expr(th, *body, owner)));
            }
            ExprKind::LoopMatch { state, .. } => {
                f.push(("k", "LoopMatch".into()));
                f.push(("e", self.expr(th, *state, owner)));
            }
            ExprKind::Let { expr, pat } => {
                f.push(("k", "Let".into()));
                f.push(("e", self.expr(th, *expr, owner)));
                f.push(("pat", self.pat(pat)));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                f.push(("k", "Match".into()));
                f.push(("e", self.expr(th, *scrutinee, owner)));
                let src = format!("{match_source:?}");
                f.push(("src", src.split('(').next().unwrap().into()));
                let mut a = vec![];
                for arm in arms.iter() {
                    let arm = &th.arms[*arm];
                    let mut g = vec![("pat", self.pat(&arm.pattern))];
                    let mut guard = arm.guard;
                    if guard.is_none() {
                        arm.pattern.walk(|p| {
                            if let PatKind::Guard { condition, .. } = &p.kind {
                                guard = Some(*condition);
                            }
                            true
                        });
                    }
                    if let Some(x) = guard {
                        g.push(("guard", self.expr(th, x, owner)));
                    }
                    g.push(("body", self.expr(th, arm.body, owner)));
                    a.push(obj(g));
                }
                f.push(("arms", J::Arr(a)));
            }
            ExprKind::Block { block } => {
                let b = self.block(th, *block, owner);
                if let J::Obj(v) = b {
                    f.extend(v);
                    f.retain(|(k, _)| *k != "l");
                }
            }
            ExprKind::Assign { lhs, rhs } => {
                f.push(("k", "Assign".into()));
                f.push(("a", self.expr(th, *lhs, owner)));
                f.push(("b", self.expr(th, *rhs, owner)));
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                f.push(("k", "AssignOp".into()));
                f.push(("op", format!("{op:?}").into()));
                f.push(("a", self.expr(th, *lhs, owner)));
                f.push(("b", self.expr(th, *rhs, owner)));
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let base = &th.exprs[*lhs];
                f.push(("k", "Field".into()));
                let n = match base.ty.kind() {
                    ty::Adt(d, _) => {
                        f.push(("adt", path(self.tcx, d.did()).into()));
                        d.variant(*variant_index).fields[*name].name.to_string()
                    }
                    _ => name.as_usize().to_string(),
                };
                f.push(("name", n.into()));
                f.push(("e", self.expr(th, *lhs, owner)));
            }
            ExprKind::Index { lhs, index } => {
                f.push(("k", "Index".into()));
                f.push(("e", self.expr(th, *lhs, owner)));
                f.push(("i", self.expr(th, *index, owner)));
            }
            ExprKind::VarRef { id } => {
                f.push(("k", "Var".into()));
                f.push(("v", self.var(*id)));
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                f.push(("k", "Var".into()));
                f.push(("up", true.into()));
                f.push(("v", self.var(*var_hir_id)));
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                f.push(("k", "Borrow".into()));
                f.push(("mut", matches!(borrow_kind, BorrowKind::Mut { .. }).into()));
                f.push(("e", self.expr(th, *arg, owner)));
            }
            ExprKind::RawBorrow { arg, .. } => {
                f.push(("k", "RawBorrow".into()));
                f.push(("e", self.expr(th, *arg, owner)));
            }
            ExprKind::Break { label, value } => {
                f.push(("k", "Break".into()));
                f.push(("label", self.label(*label)));
                if let Some(v) = value {
                    f.push(("e", self.expr(th, *v, owner)));
                }
            }
            ExprKind::Continue { .. } | ExprKind::ConstContinue { .. } => f.push(("k", "Continue".into())),
            ExprKind::Return { value } => {
                f.push(("k", "Return".into()));
                if let Some(v) = value {
                    f.push(("e", self.expr(th, *v, owner)));
                }
            }
            ExprKind::Become { value } => {
                f.push(("k", "Return".into()));
                f.push(("e", self.expr(th, *value, owner)));
            }
            ExprKind::ConstBlock { did, .. } => {
                f.push(("k", "ConstBlock".into()));
                if let Some(l) = did.as_local() {
                    f.push(("did", self.cid(l).into()));
                }
            }
            ExprKind::Repeat { value, count } => {
                f.push(("k", "Repeat".into()));
                f.push(("e", self.expr(th, *value, owner)));
                f.push(("n", with_no_trimmed_paths!(count.to_string()).into()));
            }
            ExprKind::Array { fields } | ExprKind::Tuple { fields } => {
                f.push(("k", if matches!(e.kind, ExprKind::Array { .. }) { "Array" } else { "Tuple" }.into()));
                let a = fields.iter().map(|x| self.expr(th, *x, owner)).collect::<Vec<_>>();
                f.push(("es", J::Arr(a)));
            }
            ExprKind::Adt(a) => {
                f.push(("k", "Adt".into()));
                f.push(("adt", path(self.tcx, a.adt_def.did()).into()));
                let v = a.adt_def.variant(a.variant_index);
                f.push(("variant", v.name.to_string().into()));
                let mut fs = vec![];
                for x in a.fields.iter() {
                    let n = v.fields[x.name].name.to_string();
                    fs.push(J::Arr(vec![n.into(), self.expr(th, x.expr, owner)]));
                }
                f.push(("fields", J::Arr(fs)));
                if let AdtExprBase::Base(b) = &a.base {
                    f.push(("base", self.expr(th, b.base, owner)));
                }
            }
            ExprKind::Closure(c) => {
                f.push(("k", "Closure".into()));
                f.push(("did", self.cid(c.closure_id).into()));
                let b = self.body(c.closure_id);
                f.push(("body", b));
            }
            ExprKind::Literal { lit, neg } => {
                f.push(("k", "Lit".into()));
                let s = match lit.node {
                    rustc_ast::LitKind::Int(n, _) => n.get().to_string(),
                    rustc_ast::LitKind::Bool(b) => b.to_string(),
                    rustc_ast::LitKind::Str(s, _) => format!("\"{s}"),
                    rustc_ast::LitKind::ByteStr(ref b, _) => format!("b\"{}", String::from_utf8_lossy(b.as_byte_str())),
                    ref k => format!("{k:?}"),
                };
                f.push(("val", if *neg { format!("-{s}") } else { s }.into()));
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                f.push(("k", "Lit".into()));
                f.push(("val", format!("{lit:?}").into()));
            }
            ExprKind::ZstLiteral { .. } => {
                f.push(("k", "Fn".into()));
                if let ty::FnDef(did, ga) = e.ty.kind() {
                    f.extend(self.callee(*did, ga.skip_binder(), owner));
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                f.push(("k", "Const".into()));
                f.push(("path", path(self.tcx, *def_id).into()));
                let ts: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| J::Int(self.ty(t) as i64)).collect();
                f.push(("targs", J::Arr(ts)));
                let tcx = self.tcx;
                if !args.has_escaping_bound_vars() && !args.references_error() {
                    let env = ty::TypingEnv::post_analysis(tcx, owner.to_def_id());
                    let args = tcx.erase_and_anonymize_regions(*args);
                    if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, *def_id, args) {
                        f.push(("res", path(tcx, inst.def_id()).into()));
                    }
                }
            }
            ExprKind::ConstParam { param, .. } => {
                f.push(("k", "ConstParam".into()));
                f.push(("path", param.name.to_string().into()));
            }
            ExprKind::StaticRef { def_id, .. } => {
                f.push(("k", "Static".into()));
                f.push(("path", path(self.tcx, *def_id).into()));
            }
            ExprKind::InlineAsm(_) => f.push(("k", "Asm".into())),
            ExprKind::ThreadLocalRef(_) => f.push(("k", "Tls".into())),
            ExprKind::Yield { .. } => f.push(("k", "Yield".into())),
        }
        let t = self.ty(e.ty);
        f.push(("t", t.into()));
        f.push(("l", self.line(e.span)));
        obj(f)
    }

    /// The body of a function, closure or constant: parameters and expression.
    pub fn body(&mut self, d: LocalDefId) -> J {
        let tcx = self.tcx;
        let Ok((steal, root)) = tcx.thir_body(d) else {
            return obj(vec![("error", true.into())]);
        };
        let th = &*steal.borrow();
        let mut params = vec![];
        for p in th.params.iter() {
            match &p.pat {
                Some(pat) => params.push(self.pat(pat)),
                None => params.push(J::Null),
            }
        }
        let owner = tcx.typeck_root_def_id(d.to_def_id()).expect_local();
        let e = self.expr(th, root, owner);
        obj(vec![("params", J::Arr(params)), ("e", e)])
    }
}

fn generics<'tcx>(cx: &mut Cx<'tcx>, d: DefId) -> J {
    let g = cx.tcx.generics_of(d);
    let mut v = vec![];
    for i in 0..g.count() {
        let p = g.param_at(i, cx.tcx);
        if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
            v.push(J::Str(p.name.to_string()));
        }
    }
    J::Arr(v)
}

fn preds<'tcx>(cx: &mut Cx<'tcx>, d: DefId) -> J {
    let mut v = vec![];
    let ps = cx.tcx.clauses_of(d);
    if let Some(parent) = ps.parent {
        if let J::Arr(up) = preds(cx, parent) {
            v.extend(up);
        }
    }
    for (p, _) in ps.clauses {
        v.push(J::Str(with_resolve_crate_name!(with_no_trimmed_paths!(p.to_string()))));
    }
    J::Arr(v)
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx { tcx, types: HashMap::new(), type_list: vec![], files: HashMap::new(), file_list: vec![] };
    let mut fns = vec![];
    let mut consts = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        let kind = tcx.def_kind(did);
        let sp = tcx.def_span(did);
        match kind {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(did);
                let mut vs = vec![];
                let plain = a.is_enum() && !a.variants().is_empty() && tcx.generics_of(did).is_empty();
                for (vi, v) in a.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for fd in v.fields.iter() {
                        let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                        let t = cx.ty(t);
                        fs.push(obj(vec![
                            ("name", fd.name.to_string().into()),
                            ("t", t.into()),
                            ("vis", format!("{:?}", fd.vis).into()),
                        ]));
                    }
                    let mut o = vec![("name", v.name.to_string().into()), ("fields", J::Arr(fs))];
                    if plain {
                        // the number the variant is when cast
                        o.push(("discr", a.discriminant_for_variant(tcx, vi).to_string().into()));
                    }
                    vs.push(obj(o));
                }
                adts.push(obj(vec![
                    ("path", path(tcx, did).into()),
                    ("kind", format!("{kind:?}").into()),
                    ("variants", J::Arr(vs)),
                    ("generics", generics(&mut cx, did)),
                    ("vis", format!("{:?}", tcx.visibility(did)).into()),
                    ("file", cx.file(sp).into()),
                    ("l", cx.line(sp)),
                ]));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut f: Vec<(&'static str, J)> = vec![("did", cx.cid(id).into()), ("self", head(tcx, st).into())];
                let t = cx.ty(st);
                f.push(("self_t", t.into()));
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    f.push(("trait", path(tcx, tr.def_id).into()));
                    f.push(("trait_ref", with_resolve_crate_name!(with_no_trimmed_paths!(tr.to_string())).into()));
                    let h = tcx.impl_trait_header(did);
                    f.push(("unsafe", h.safety.is_unsafe().into()));
                    f.push(("polarity", format!("{:?}", h.polarity).into()));
                }
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    let mut g: Vec<(&'static str, J)> =
                        vec![("name", it.opt_name().map(|n| n.to_string()).into()), ("kind", format!("{:?}", it.tag()).into())];
                    if matches!(it.tag(), ty::AssocTag::Type) {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let t = cx.ty(t);
                        g.push(("t", t.into()));
                    }
                    items.push(obj(g));
                }
                f.push(("items", J::Arr(items)));
                f.push(("generics", generics(&mut cx, did)));
                f.push(("preds", preds(&mut cx, did)));
                f.push(("derived", sp.from_expansion().into()));
                f.push(("file", cx.file(sp).into()));
                f.push(("l", cx.line(sp)));
                impls.push(obj(f));
            }
            DefKind::Trait => {
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    items.push(obj(vec![
                        ("name", it.opt_name().map(|n| n.to_string()).into()),
                        ("kind", format!("{:?}", it.tag()).into()),
                        ("default", it.defaultness(tcx).has_value().into()),
                    ]));
                }
                traits.push(obj(vec![
                    ("path", path(tcx, did).into()),
                    ("unsafe", tcx.trait_def(did).safety.is_unsafe().into()),
                    ("items", J::Arr(items)),
                    ("preds", preds(&mut cx, did)),
                    ("vis", format!("{:?}", tcx.visibility(did)).into()),
                    ("file", cx.file(sp).into()),
                    ("l", cx.line(sp)),
                ]));
            }
            _ => {}
        }
    }
    for d in tcx.hir_body_owners() {
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        if matches!(kind, DefKind::Closure | DefKind::AnonConst) {
            continue;
        }
        let sp = tcx.def_span(did);
        let mut f: Vec<(&'static str, J)> =
            vec![("did", cx.cid(d).into()), ("path", path(tcx, did).into()), ("kind", format!("{kind:?}").into())];
        f.push(("file", cx.file(sp).into()));
        f.push(("l", cx.line(sp)));
        let full = tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(d));
        let end = tcx.sess.source_map().lookup_char_pos(full.source_callsite().hi()).line;
        f.push(("lend", end.into()));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| J::Int(cx.ty(*t) as i64)).collect();
            f.push(("ins", J::Arr(ins)));
            let o = cx.ty(sig.output());
            f.push(("out", o.into()));
            f.push(("unsafe", sig.safety().is_unsafe().into()));
            f.push(("generics", generics(&mut cx, did)));
            f.push(("preds", preds(&mut cx, did)));
            f.push(("vis", format!("{:?}", tcx.visibility(did)).into()));
            f.push(("derived", sp.from_expansion().into()));
            if let Some(p) = tcx.opt_parent(did) {
                match tcx.def_kind(p) {
                    DefKind::Impl { .. } => {
                        f.push(("impl", cx.cid(p.expect_local()).into()));
                        f.push(("name", tcx.item_name(did).to_string().into()));
                        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                        f.push(("self", head(tcx, st).into()));
                        if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                            let tr = tr.instantiate_identity().skip_norm_wip();
                            f.push(("trait", path(tcx, tr.def_id).into()));
                        }
                    }
                    DefKind::Trait => {
                        f.push(("trait", path(tcx, p).into()));
                        f.push(("provided", true.into()));
                        f.push(("name", tcx.item_name(did).to_string().into()));
                    }
                    _ => f.push(("name", tcx.item_name(did).to_string().into())),
                }
            }
        }
        let b = cx.body(d);
        f.push(("body", b));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            fns.push(obj(f));
        } else {
            if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = cx.ty(t);
                f.push(("t", t.into()));
                if let Some(p) = tcx.opt_parent(did) {
                    if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                        f.push(("impl", cx.cid(p.expect_local()).into()));
                    }
                }
                if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) && tcx.generics_of(did).requires_monomorphization(tcx) == false {
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        if let Some(s) = v.try_to_scalar_int() {
                            f.push(("val", s.to_bits_unchecked().to_string().into()));
                        }
                        let vt = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                        let vt = tcx.normalize_erasing_regions(rustc_middle::ty::TypingEnv::fully_monomorphized(), rustc_middle::ty::Unnormalized::new_wip(vt));
                        let mut budget = 600;
                        if let Some(x) = constant(tcx, v, vt, &mut budget) {
                            f.push(("cv", x));
                        }
                    }
                }
            }
            consts.push(obj(f));
        }
    }
    let files: Vec<J> = cx.file_list.iter().map(|s| J::Str(s.clone())).collect();
    let j = obj(vec![
        ("crate", tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string().into()),
        ("files", J::Arr(files)),
        ("types", J::Arr(std::mem::take(&mut cx.type_list))),
        ("fns", J::Arr(fns)),
        ("consts", J::Arr(consts)),
        ("adts", J::Arr(adts)),
        ("impls", J::Arr(impls)),
        ("traits", J::Arr(traits)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(out, s).unwrap();
}

/// The structure of an evaluated constant: integers and booleans as strings, arrays and tuples as
/// lists, structures and variants as {"adt", "v", "f": [[name, value]]}.
fn constant<'tcx>(tcx: TyCtxt<'tcx>, v: rustc_middle::mir::ConstValue, t: rustc_middle::ty::Ty<'tcx>, budget: &mut usize) -> Option<J> {
    use rustc_middle::ty::TyKind;
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    match t.kind() {
        TyKind::Bool | TyKind::Uint(_) => v.try_to_scalar_int().map(|s| s.to_bits_unchecked().to_string().into()),
        TyKind::Array(..) | TyKind::Tuple(_) => {
            let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
            let mut out = Vec::new();
            for (x, xt) in d.fields {
                out.push(constant(tcx, *x, *xt, budget)?);
            }
            Some(J::Arr(out))
        }
        TyKind::Adt(def, _) if !def.is_union() => {
            let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
            let variant = &def.variants()[d.variant?];
            let mut out = Vec::new();
            for (x, fd) in d.fields.iter().zip(variant.fields.iter()) {
                out.push(J::Arr(vec![fd.name.to_string().into(), constant(tcx, x.0, x.1, budget)?]));
            }
            Some(obj(vec![("adt", path(tcx, def.did()).into()), ("v", variant.name.to_string().into()), ("f", J::Arr(out))]))
        }
        _ => None,
    }
}
