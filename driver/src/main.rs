//! Dumps the typed, macro-expanded bodies (THIR) and items of a workspace crate as JSON.
//! Run by cargo as RUSTC_WORKSPACE_WRAPPER; everything else is passed through to rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::{self, TyCtxt, TypeVisitableExt};
use rustc_span::def_id::LocalDefId;

struct Cb {
    out: String,
    whole: bool,
}

/// Borrow checking decides nothing that the rules use, so that a body it rejects is still analysed;
/// it is kept for functions returning `impl Trait`, whose hidden types it computes.
fn override_queries(_: &rustc_session::Session, providers: &mut rustc_middle::util::Providers) {
    fn skip<'tcx>(
        tcx: TyCtxt<'tcx>,
        def: LocalDefId,
    ) -> Result<
        &'tcx rustc_data_structures::fx::FxIndexMap<LocalDefId, ty::DefinitionSiteHiddenType<'tcx>>,
        rustc_span::ErrorGuaranteed,
    > {
        use rustc_hir::def::DefKind;
        let is_fn = matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn);
        let opaque = !is_fn || tcx.fn_sig(def).skip_binder().skip_binder().output().has_opaque_types();
        if opaque {
            let f = ORIGINAL.with(|o| o.get().unwrap());
            return f(tcx, def);
        }
        Ok(tcx.arena.alloc(Default::default()))
    }
    ORIGINAL_G.get_or_init(|| providers.queries.mir_borrowck as usize);
    providers.queries.mir_borrowck = skip;
}
type Borrowck = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> Result<
    &'tcx rustc_data_structures::fx::FxIndexMap<LocalDefId, ty::DefinitionSiteHiddenType<'tcx>>,
    rustc_span::ErrorGuaranteed,
>;
static ORIGINAL_G: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
struct Orig;
impl Orig {
    fn with<R>(&self, f: impl FnOnce(&std::cell::Cell<Option<Borrowck>>) -> R) -> R {
        let p = *ORIGINAL_G.get().unwrap();
        // The address was taken from a function pointer of this very type.
        let g: Borrowck = unsafe { std::mem::transmute::<usize, Borrowck>(p) };
        f(&std::cell::Cell::new(Some(g)))
    }
}
static ORIGINAL: Orig = Orig;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
        if !self.whole {
            config.override_queries = Some(override_queries);
        }
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::dump(tcx, &self.out);
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc first.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let get = |f: &str| args.iter().position(|a| a == f).and_then(|i| args.get(i + 1)).cloned();
    let name = get("--crate-name").unwrap_or_default();
    let out = std::env::var("RAGU_IR_OUT").ok();
    // Crates compiled for real (build dependencies, the proc-macro crate) keep every pass.
    let linked = args.iter().any(|a| a.starts_with("--emit=") && a.contains("link"));
    let is_macro = args.iter().any(|a| a == "proc-macro") || name == "ragu_macros";
    let probing = name == "___" || name.is_empty() || args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    args.push("--cap-lints".into());
    args.push("allow".into());
    match out {
        Some(out) if !probing && name != "build_script_build" && (is_macro || !linked) => {
            let file = format!("{out}/{name}.json");
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out: file, whole: linked }))
        }
        _ => {
            struct Pass;
            impl Callbacks for Pass {}
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Pass))
        }
    }
}
