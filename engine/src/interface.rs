//! What code outside of the library can do with the types it exports at its root.

use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{CRATE_DEF_ID, DefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::{Ty, TyCtxt, TypingEnv};
use rustc_span::sym;
use rustc_trait_selection::infer::InferCtxtExt;

use crate::interp::Engine;
use crate::json::J;
use crate::obj;

fn has<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, tr: Option<DefId>) -> bool {
    let Some(tr) = tr else { return false };
    let (ic, pe) = tcx.infer_ctxt().build_with_typing_env(TypingEnv::fully_monomorphized());
    let rest = tcx.generics_of(tr).count() - 1;
    let args = std::iter::repeat_n(t, rest + 1);
    ic.type_implements_trait(tr, args, pe).must_apply_modulo_regions()
}

/// The public items of the crate root, with the properties of types that callers rely on.
pub fn exports<'tcx>(eng: &Engine<'tcx>) -> J {
    let tcx = eng.tcx;
    let mut out = vec![];
    for c in tcx.module_children_local(CRATE_DEF_ID) {
        if !c.vis.is_public() {
            continue;
        }
        let Res::Def(kind, did) = c.res else { continue };
        let mut f = vec![
            ("name".to_string(), J::s(c.ident.name.to_string())),
            ("at".to_string(), J::s(eng.loc(tcx.def_span(did)))),
            ("kind".to_string(), J::s(format!("{kind:?}"))),
        ];
        if matches!(kind, DefKind::Struct | DefKind::Enum) {
            let adt = tcx.adt_def(did);
            let hidden: Vec<J> = adt
                .variants()
                .iter()
                .flat_map(|v| v.fields.iter().filter(|f| !f.vis.is_public()).map(move |f| J::s(format!("{}::{}", v.name, f.name))))
                .collect();
            let open = adt.is_variant_list_non_exhaustive() || adt.variants().iter().any(|v| v.is_field_list_non_exhaustive());
            let params = tcx.generics_of(did).count();
            f.push(("hidden".into(), J::Arr(hidden)));
            f.push(("open".into(), J::Bool(open)));
            f.push(("parameters".into(), J::Num(params as i128)));
            if params == 0 {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let l = tcx.lang_items();
                let traits = [
                    ("Send", tcx.get_diagnostic_item(sym::Send)),
                    ("Sync", l.sync_trait()),
                    ("Unpin", l.unpin_trait()),
                    ("UnwindSafe", tcx.get_diagnostic_item(sym::unwind_safe_trait)),
                    ("RefUnwindSafe", tcx.get_diagnostic_item(sym::ref_unwind_safe_trait)),
                    ("Copy", l.copy_trait()),
                    ("PartialEq", l.eq_trait()),
                    ("Debug", tcx.get_diagnostic_item(sym::Debug)),
                    ("Display", tcx.get_diagnostic_item(sym::Display)),
                ];
                let has = traits.iter().filter(|(_, tr)| has(tcx, t, *tr)).map(|(n, _)| J::s(*n)).collect();
                f.push(("traits".into(), J::Arr(has)));
                f.push(("drops".into(), J::Bool(t.needs_drop(tcx, TypingEnv::fully_monomorphized()))));
            }
        }
        if kind == DefKind::Trait {
            let ints = [("u16", tcx.types.u16), ("u32", tcx.types.u32)];
            let on = ints.iter().filter(|(_, t)| has(tcx, *t, Some(did))).map(|(n, _)| J::s(*n)).collect();
            f.push(("implementors".into(), J::Arr(on)));
        }
        out.push(J::Obj(f));
    }
    obj! {"exports" => J::Arr(out)}
}
