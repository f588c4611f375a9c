//! Whole-crate effect lints: constructs through which a library function could reach
//! state or behaviour outside of its arguments.

use rustc_hir as hir;
use rustc_hir::def_id::LocalDefId;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::{self, TyCtxt, TypingEnv};
use rustc_span::Span;

use crate::interp::Engine;
use crate::json::J;
use crate::obj;

struct V<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    eng: &'a Engine<'tcx>,
    found: Vec<J>,
    owner: Vec<LocalDefId>,
    bodies: Vec<hir::BodyId>,
    fns: u64,
    blocks: u64,
    items: u64,
    exprs: u64,
    public: u64,
}

impl<'a, 'tcx> V<'a, 'tcx> {
    fn report(&mut self, what: &str, sp: Span) {
        let f = match self.owner.last() {
            Some(d) => self.eng.name(d.to_def_id()),
            None => "crate".into(),
        };
        let at = self.eng.loc(sp);
        self.found.push(obj! {"what" => J::s(what), "fn" => J::s(f), "at" => J::s(at)});
    }
    /// Where a value lives is not one of its bits: ordering, numbering or aligning pointers.
    fn observes_address(&self, e: &'tcx hir::Expr<'tcx>) -> bool {
        let Some(&o) = self.bodies.last() else { return false };
        let tr = self.tcx.typeck_body(o);
        let pointer = |x: &hir::Expr<'tcx>| tr.expr_ty_opt(x).is_some_and(|t| t.is_raw_ptr() || t.is_fn_ptr() || t.is_fn());
        let ops = |d: rustc_hir::def_id::DefId| {
            let n = self.eng.name(d);
            n.contains("ptr")
                && ["addr", "expose_provenance", "align_offset", "is_aligned", "is_aligned_to"]
                    .contains(&n.rsplit("::").next().unwrap_or(""))
        };
        match e.kind {
            hir::ExprKind::Cast(x, _) => pointer(x) && tr.expr_ty_opt(e).is_some_and(|t| t.is_integral()),
            hir::ExprKind::Binary(o, x, _) => o.node.is_comparison() && !matches!(o.node, hir::BinOpKind::Eq | hir::BinOpKind::Ne) && pointer(x),
            hir::ExprKind::MethodCall(..) => tr.type_dependent_def_id(e.hir_id).is_some_and(ops),
            hir::ExprKind::Path(ref q) => tr.qpath_res(q, e.hir_id).opt_def_id().is_some_and(ops),
            _ => false,
        }
    }
}

impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        self.items += 1;
        self.owner.push(i.owner_id.def_id);
        match &i.kind {
            hir::ItemKind::Static(m, ..) => {
                let d = i.owner_id.def_id.to_def_id();
                let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if m.is_mut() {
                    self.report("mutable static", i.span);
                } else if !t.is_freeze(self.tcx, TypingEnv::fully_monomorphized()) {
                    self.report("static with interior mutability", i.span);
                }
            }
            hir::ItemKind::Struct(..) | hir::ItemKind::Enum(..) | hir::ItemKind::Union(..) => {
                let d = i.owner_id.def_id;
                if self.tcx.effective_visibilities(()).is_reachable(d) {
                    self.public += 1;
                    // what a caller puts in place of a type parameter is the caller's
                    let args = ty::GenericArgs::for_item(self.tcx, d.to_def_id(), |p, _| match p.kind {
                        ty::GenericParamDefKind::Type { .. } => self.tcx.types.unit.into(),
                        ty::GenericParamDefKind::Lifetime => self.tcx.lifetimes.re_erased.into(),
                        ty::GenericParamDefKind::Const { .. } => self.tcx.mk_param_from_def(p),
                    });
                    let own = self.tcx.type_of(d.to_def_id()).instantiate(self.tcx, args).skip_norm_wip();
                    let te = TypingEnv::non_body_analysis(self.tcx, d.to_def_id());
                    if !own.is_freeze(self.tcx, te) {
                        self.report("public type with interior mutability", i.span);
                    }
                }
            }
            hir::ItemKind::ForeignMod { .. } => self.report("foreign items", i.span),
            hir::ItemKind::GlobalAsm { .. } => self.report("global assembly", i.span),
            hir::ItemKind::ExternCrate(..) => {
                // the crates injected by the compiler have no source location
                if !i.span.is_dummy() {
                    let n = self.tcx.extern_mod_stmt_cnum(i.owner_id.def_id).map(|c| self.tcx.crate_name(c).to_string());
                    if !matches!(n.as_deref(), Some("core")) {
                        self.report(&format!("extern crate {}", n.unwrap_or_default()), i.span);
                    }
                }
            }
            hir::ItemKind::Impl(im) => {
                // `derive` expands to unsafe marker impls that carry no code
                let derived = self.tcx.is_automatically_derived(i.owner_id.def_id.to_def_id());
                if im.of_trait.is_some_and(|t| t.safety == hir::Safety::Unsafe) && !derived {
                    self.report("unsafe impl", i.span);
                }
            }
            _ => {}
        }
        intravisit::walk_item(self, i);
        self.owner.pop();
    }
    fn visit_impl_item(&mut self, i: &'tcx hir::ImplItem<'tcx>) {
        self.owner.push(i.owner_id.def_id);
        intravisit::walk_impl_item(self, i);
        self.owner.pop();
    }
    fn visit_trait_item(&mut self, i: &'tcx hir::TraitItem<'tcx>) {
        self.owner.push(i.owner_id.def_id);
        intravisit::walk_trait_item(self, i);
        self.owner.pop();
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        self.blocks += 1;
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.report("unsafe block", b.span);
        }
        intravisit::walk_block(self, b);
    }
    fn visit_nested_body(&mut self, b: hir::BodyId) {
        self.bodies.push(b);
        let body = self.tcx.hir_body(b);
        self.visit_body(body);
        self.bodies.pop();
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        self.exprs += 1;
        if let hir::ExprKind::InlineAsm(..) = e.kind {
            self.report("inline assembly", e.span);
        }
        if self.observes_address(e) {
            self.report("address of an object used as a number", e.span);
        }
        intravisit::walk_expr(self, e);
    }
    fn visit_fn(
        &mut self,
        k: intravisit::FnKind<'tcx>,
        d: &'tcx hir::FnDecl<'tcx>,
        b: hir::BodyId,
        sp: Span,
        id: LocalDefId,
    ) {
        self.fns += 1;
        if let Some(h) = k.header() {
            if h.is_unsafe() {
                self.report("unsafe fn", sp);
            }
        }
        intravisit::walk_fn(self, k, d, b, id);
    }
}

pub fn lint<'tcx>(eng: &Engine<'tcx>) -> J {
    let tcx = eng.tcx;
    let mut v = V { tcx, eng, found: vec![], owner: vec![], bodies: vec![], fns: 0, blocks: 0, items: 0, exprs: 0, public: 0 };
    tcx.hir_walk_toplevel_module(&mut v);
    let crates = tcx.crates(()).iter().map(|c| J::s(tcx.crate_name(*c).to_string())).collect();
    obj! {
        "found" => J::Arr(v.found),
        "crates" => J::Arr(crates),
        "functions" => J::Num(v.fns as i128),
        "blocks" => J::Num(v.blocks as i128),
        "items" => J::Num(v.items as i128),
        "expressions" => J::Num(v.exprs as i128),
        "public_types" => J::Num(v.public as i128)
    }
}
