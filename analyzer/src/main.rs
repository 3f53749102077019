//! Fact extractor: a rustc driver that dumps the type-checked, monomorphised MIR of the
//! analysed crate (and of the std helpers its combinators resolve to) as JSON.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; the bodies are
//! taken from the `mir_promoted` query, i.e. before drop elaboration and before the coroutine
//! state transform, so an `async` body still has its source-level control flow.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;

use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_index::IndexVec;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{
    self, AggregateKind, Body, Operand, Place, ProjectionElem, Rvalue, StatementKind,
    TerminatorKind,
};
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, Instance, Ty, TyCtxt, TypingEnv, Unnormalized};
use rustc_middle::util::Providers;
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::OnceLock;

type PromotedFn = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<IndexVec<mir::Promoted, Body<'tcx>>>,
);
static DEFAULT: OnceLock<PromotedFn> = OnceLock::new();

type Saved = (Body<'static>, IndexVec<mir::Promoted, Body<'static>>);
thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, Saved>> = RefCell::new(HashMap::new());
}

fn my_mir_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<IndexVec<mir::Promoted, Body<'tcx>>>,
) {
    let (b, p) = (DEFAULT.get().unwrap())(tcx, def);
    let saved: (Body<'tcx>, IndexVec<mir::Promoted, Body<'tcx>>) =
        (b.borrow().clone(), p.borrow().clone());
    // the type context outlives every use: the bodies are only read in `after_analysis`
    let saved: Saved = unsafe { std::mem::transmute(saved) };
    BODIES.with(|m| m.borrow_mut().insert(def, saved));
    (b, p)
}

fn override_queries(_s: &rustc_session::Session, p: &mut Providers) {
    let _ = DEFAULT.set(p.queries.mir_promoted);
    p.queries.mir_promoted = my_mir_promoted;
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.override_queries = Some(override_queries);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let j = with_no_trimmed_paths!(with_no_visible_paths!(with_crate_prefix!(Dump::run(tcx))));
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(&self.out, s).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a RUSTC_WORKSPACE_WRAPPER the first argument is the path of rustc
    args.remove(1);
    let want = std::env::var("MCFACTS_CRATE").unwrap_or_default();
    let out = std::env::var("MCFACTS_OUT").unwrap_or_default();
    let is = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == want)
        && !args.iter().any(|a| a == "--test");
    let code = rustc_driver::catch_with_exit_code(move || {
        if is && !out.is_empty() {
            args.push("-Zmir-opt-level=0".into());
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            struct N;
            impl rustc_driver::Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N);
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

#[derive(Clone, Copy)]
struct Job<'tcx> {
    inst: Instance<'tcx>,
    tenv: TypingEnv<'tcx>,
    envdef: Option<DefId>,
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    queue: VecDeque<(String, Job<'tcx>)>,
    seen: HashMap<(Instance<'tcx>, Option<DefId>), String>,
    keys: HashMap<String, usize>,
}

const INLINE_EXTERN: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::ops::try_trait::",
    "core::ops::control_flow::",
    "core::ops::function::",
    "core::convert::",
    "core::bool::",
    "core::cmp::",
    "core::default::",
    "core::task::poll::",
];

/// every use of the unsafe keyword, extern block and mutable static of the crate
struct Unsafety<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(&'static str, Span)>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafety<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(("block", b.span));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait {
                    if matches!(t.safety, rustc_hir::Safety::Unsafe)
                        && !self.tcx.is_automatically_derived(i.owner_id.to_def_id())
                    {
                        self.found.push(("impl", i.span));
                    }
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => self.found.push(("extern block", i.span)),
            rustc_hir::ItemKind::Static(rustc_hir::Mutability::Mut, ..) => self.found.push(("static mut", i.span)),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i);
    }
}

/// which fields of which types a body reads, writes or borrows mutably
struct Touch<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    found: std::collections::BTreeSet<(String, usize, bool)>,
}
impl<'a, 'tcx> mir::visit::Visitor<'tcx> for Touch<'a, 'tcx> {
    fn visit_place(&mut self, p: &Place<'tcx>, cx: mir::visit::PlaceContext, _l: mir::Location) {
        let w = cx.is_mutating_use();
        for (base, e) in p.iter_projections() {
            if let ProjectionElem::Field(f, _) = e {
                if let ty::Adt(a, _) = base.ty(self.body, self.tcx).ty.kind() {
                    self.found.insert((self.tcx.def_path_str(a.did()), f.as_usize(), w));
                }
            }
        }
        // a whole value overwritten through a reference
        let stored = matches!(
            cx,
            mir::visit::PlaceContext::MutatingUse(
                mir::visit::MutatingUseContext::Store | mir::visit::MutatingUseContext::Call
            )
        );
        if stored && p.projection.last() == Some(&ProjectionElem::Deref) {
            if let ty::Adt(a, _) = p.ty(self.body, self.tcx).ty.kind() {
                self.found.insert((self.tcx.def_path_str(a.did()), usize::MAX, w));
            }
        }
    }
}

fn o_is_future<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    match t.kind() {
        ty::Alias(..) | ty::Dynamic(..) => t.to_string().contains("Future"),
        ty::Adt(_, args) => args.types().any(|x| o_is_future(tcx, x)),
        _ => false,
    }
}

impl<'tcx> Dump<'tcx> {
    fn run(tcx: TyCtxt<'tcx>) -> J {
        let mut d = Dump {
            tcx,
            types: vec![],
            tyidx: HashMap::new(),
            adts: BTreeMap::new(),
            queue: VecDeque::new(),
            seen: HashMap::new(),
            keys: HashMap::new(),
        };
        let mut fns = vec![];
        let ev = tcx.effective_visibilities(());
        for def in tcx.hir_body_owners() {
            let did = def.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.is_constructor(did) {
                continue;
            }
            let tenv = TypingEnv::post_analysis(tcx, did);
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let generic = args.non_erasable_generics().next().is_some();
            let inst = Instance::new_raw(did, args);
            let key = d.enqueue(Job {
                inst,
                tenv,
                envdef: if generic { Some(did) } else { None },
            });
            let mut o = J::obj();
            o.s("path", tcx.def_path_str(did));
            o.s("name", tcx.item_name(did).to_string());
            o.s("key", key.clone());
            o.b("generic", generic);
            o.b("async", tcx.asyncness(did).is_async());
            o.b("pub", ev.is_reachable(def));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            o.s("output", sig.output().to_string());
            o.v("inputs", J::A(sig.inputs().iter().map(|t| J::S(t.to_string())).collect()));
            if o_is_future(tcx, sig.output()) {
                let out = tcx.liberate_late_bound_regions(did, tcx.fn_sig(did).instantiate_identity().skip_norm_wip()).output();
                o.b("future_send", d.auto(out, rustc_span::sym::Send, tenv));
            }
            o.b("unsafe", sig.safety().is_unsafe());
            o.v("span", d.span(tcx.def_span(did)));
            let parent = tcx.parent(did);
            if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                let mut io = J::obj();
                let self_ty = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                io.s("self_ty", self_ty.to_string());
                if let ty::Adt(a, _) = self_ty.kind() {
                    io.s("self_adt", tcx.def_path_str(a.did()));
                }
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    io.s("trait", tcx.def_path_str(tr.def_id));
                    io.v(
                        "trait_args",
                        J::A(tr.args.iter().map(|a| J::S(a.to_string())).collect()),
                    );
                }
                io.b("derived", tcx.is_automatically_derived(parent));
                o.v("impl", io);
            }
            if matches!(tcx.def_kind(parent), DefKind::Trait) {
                o.s("trait_default", tcx.def_path_str(parent));
            }
            fns.push(o);
        }
        let mut bodies = vec![];
        while let Some((key, job)) = d.queue.pop_front() {
            if let Some(b) = d.body(&key, job) {
                bodies.push(b);
            }
        }
        // items: structs and enums of the crate with visibilities
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if let DefKind::Struct | DefKind::Enum = tcx.def_kind(did) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let adt = tcx.adt_def(did);
                d.adt(adt);
                let mut o = J::obj();
                o.s("path", tcx.def_path_str(did));
                o.b("pub", ev.is_reachable(id));
                o.s("vis", format!("{:?}", tcx.visibility(did)));
                o.v("span", d.span(tcx.def_span(did)));
                let mut fl = vec![];
                for v in adt.variants() {
                    for f in &v.fields {
                        let mut fo = J::obj();
                        fo.s("name", f.name.to_string());
                        fo.b("pub", f.vis.is_public());
                        let fty = f.ty(tcx, ty::GenericArgs::identity_for_item(tcx, did)).skip_norm_wip();
                        fo.s("ty", fty.to_string());
                        fl.push(fo);
                    }
                }
                o.v("fields", J::A(fl));
                o.s("ty", t.to_string());
                let tenv = TypingEnv::post_analysis(tcx, did);
                o.b("send", d.auto(t, rustc_span::sym::Send, tenv));
                o.b("sync", d.auto(t, rustc_span::sym::Sync, tenv));
                items.push(o);
            }
        }
        // what outlives every value: statics, those inside functions and macros included
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if let DefKind::Static { mutability, .. } = tcx.def_kind(did) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut o = J::obj();
                o.s("path", tcx.def_path_str(did));
                o.s("ty", t.to_string());
                o.b("mut", mutability.is_mut());
                o.b("freeze", t.is_freeze(tcx, TypingEnv::fully_monomorphized()));
                o.b("thread_local", tcx.is_thread_local_static(did));
                o.v("span", d.span(tcx.def_span(did)));
                statics.push(o);
            }
        }
        // trait impls of the crate
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if let DefKind::Impl { .. } = tcx.def_kind(did) {
                let mut o = J::obj();
                let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                o.s("self_ty", self_ty.to_string());
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.s("trait", tcx.def_path_str(tr.def_id));
                    o.s("trait_ref", tr.to_string());
                }
                o.b("derived", tcx.is_automatically_derived(did));
                impls.push(o);
            }
        }
        let mut us = Unsafety { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut us);
        let us = us.found.iter().map(|(k, sp)| J::A(vec![J::S(k.to_string()), d.span(*sp)])).collect();
        let mut o = J::obj();
        o.v("unsafe", J::A(us));
        o.s("crate", tcx.crate_name(LOCAL_CRATE).to_string());
        o.v("fns", J::A(fns));
        o.v("bodies", J::A(bodies));
        o.v("types", J::A(std::mem::take(&mut d.types)));
        o.v("adts", J::O(std::mem::take(&mut d.adts).into_iter().collect()));
        o.v("items", J::A(items));
        o.v("impls", J::A(impls));
        o.v("statics", J::A(statics));
        o
    }

    /// whether the type has the auto trait for every instance the environment allows
    fn auto(&self, t: Ty<'tcx>, tr: rustc_span::Symbol, tenv: TypingEnv<'tcx>) -> bool {
        let tr = if tr == rustc_span::sym::Sync { self.tcx.lang_items().sync_trait() } else { self.tcx.get_diagnostic_item(tr) };
        let tr = tr.expect("an auto trait");
        let t = self.tcx.erase_and_anonymize_regions(t);
        let (infcx, penv) = self.tcx.infer_ctxt().build_with_typing_env(tenv);
        infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        // the place in the user's source the code comes from
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return J::Null;
        }
        let l = sm.lookup_char_pos(sp.lo());
        let name = l.file.name.prefer_local_unconditionally().to_string();
        J::S(format!("{}:{}", name, l.line))
    }

    fn enqueue(&mut self, job: Job<'tcx>) -> String {
        if let Some(k) = self.seen.get(&(job.inst, job.envdef)) {
            return k.clone();
        }
        let mut k = format!(
            "{}{}",
            self.tcx.def_path_str_with_args(job.inst.def_id(), job.inst.args),
            match job.envdef {
                Some(d) if d != job.inst.def_id() => format!(" in {}", self.tcx.def_path_str(d)),
                _ => String::new(),
            }
        );
        let n = self.keys.entry(k.clone()).or_insert(0);
        *n += 1;
        if *n > 1 {
            k = format!("{k} #{n}");
        }
        self.seen.insert((job.inst, job.envdef), k.clone());
        self.queue.push_back((k.clone(), job));
        k
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tyidx.insert(t, i);
        let mut o = J::obj();
        o.s("s", t.to_string());
        match *t.kind() {
            ty::Adt(a, args) => {
                o.s("k", "adt");
                o.s("adt", self.tcx.def_path_str(a.did()));
                let l: Vec<J> = args
                    .iter()
                    .filter_map(|g| g.as_type())
                    .map(|t| J::N(self.ty(t) as i64))
                    .collect();
                o.v("args", J::A(l));
                self.adt(a);
                // field types of the analysed crate's own types
                if a.did().is_local() && a.is_struct() {
                    let mut fl = vec![];
                    for f in &a.non_enum_variant().fields {
                        let ft = f.ty(self.tcx, args);
                        let ft = self
                            .tcx
                            .try_normalize_erasing_regions(
                                TypingEnv::post_analysis(self.tcx, a.did()),
                                ft,
                            )
                            .unwrap_or_else(|_| f.ty(self.tcx, args).skip_norm_wip());
                        fl.push(J::N(self.ty(ft) as i64));
                    }
                    o.v("fields", J::A(fl));
                }
            }
            ty::Ref(_, x, m) => {
                o.s("k", "ref");
                o.b("mut", m.is_mut());
                let x = self.ty(x);
                o.n("to", x as i64);
            }
            ty::RawPtr(x, _) => {
                o.s("k", "ptr");
                let x = self.ty(x);
                o.n("to", x as i64);
            }
            ty::Tuple(l) => {
                o.s("k", "tuple");
                let l: Vec<J> = l.iter().map(|t| J::N(self.ty(t) as i64)).collect();
                o.v("args", J::A(l));
            }
            ty::Slice(x) | ty::Array(x, _) => {
                o.s("k", if matches!(t.kind(), ty::Slice(_)) { "slice" } else { "array" });
                let x = self.ty(x);
                o.n("to", x as i64);
            }
            ty::Closure(d, _) => {
                o.s("k", "closure");
                o.s("def", self.tcx.def_path_str(d));
            }
            ty::Coroutine(d, _) => {
                o.s("k", "coroutine");
                o.s("def", self.tcx.def_path_str(d));
            }
            ty::FnDef(d, _) => {
                o.s("k", "fndef");
                o.s("def", self.tcx.def_path_str(d));
            }
            ty::Dynamic(preds, _) => {
                o.s("k", "dyn");
                if let Some(p) = preds.principal_def_id() {
                    o.s("trait", self.tcx.def_path_str(p));
                }
            }
            ty::Int(_) => o.s("k", "int"),
            ty::Uint(_) => o.s("k", "uint"),
            ty::Bool => o.s("k", "bool"),
            ty::Char => o.s("k", "char"),
            ty::Str => o.s("k", "str"),
            ty::Never => o.s("k", "never"),
            ty::Param(_) => o.s("k", "param"),
            _ => o.s("k", "other"),
        }
        self.types[i] = o;
        i
    }

    fn adt(&mut self, a: ty::AdtDef<'tcx>) {
        let tcx = self.tcx;
        let p = tcx.def_path_str(a.did());
        if self.adts.contains_key(&p) {
            return;
        }
        let mut o = J::obj();
        o.s("kind", if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" });
        o.b("local", a.did().is_local());
        let mut vs = vec![];
        if a.is_enum() {
            for (i, v) in a.variants().iter_enumerated() {
                let mut vo = J::obj();
                vo.s("name", v.name.to_string());
                vo.s("discr", a.discriminant_for_variant(tcx, i).val.to_string());
                vo.v(
                    "fields",
                    J::A(v.fields.iter().map(|f| J::S(f.name.to_string())).collect()),
                );
                vs.push(vo);
            }
        } else if a.is_struct() {
            let v = a.non_enum_variant();
            let mut vo = J::obj();
            vo.s("name", v.name.to_string());
            vo.v(
                "fields",
                J::A(v.fields.iter().map(|f| J::S(f.name.to_string())).collect()),
            );
            vs.push(vo);
        }
        o.v("variants", J::A(vs));
        // a Drop impl of the crate itself
        if a.did().is_local() {
            if let Some(dtor) = a.destructor(tcx) {
                o.s("drop", tcx.def_path_str(dtor.did));
            }
        }
        self.adts.insert(p, o);
    }

    fn raw_body(&self, did: DefId) -> Option<(Body<'tcx>, IndexVec<mir::Promoted, Body<'tcx>>)> {
        if let Some(l) = did.as_local() {
            BODIES.with(|m| {
                m.borrow().get(&l).map(|b| {
                    let b: Saved = b.clone();
                    // see my_mir_promoted
                    unsafe {
                        std::mem::transmute::<
                            Saved,
                            (Body<'tcx>, IndexVec<mir::Promoted, Body<'tcx>>),
                        >(b)
                    }
                })
            })
        } else if self.tcx.is_mir_available(did) {
            Some((
                self.tcx.optimized_mir(did).clone(),
                self.tcx.promoted_mir(did).clone(),
            ))
        } else {
            None
        }
    }

    fn body(&mut self, key: &str, job: Job<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let did = job.inst.def_id();
        let (raw, promoted) = self.raw_body(did)?;
        let body = job.inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            job.tenv,
            EarlyBinder::bind(tcx, raw),
        );
        let mut o = J::obj();
        o.s("key", key);
        o.s("path", tcx.def_path_str(did));
        o.b("local", did.is_local());
        o.s(
            "kind",
            match tcx.def_kind(did) {
                DefKind::Closure => {
                    if tcx.coroutine_kind(did).is_some() {
                        "coroutine"
                    } else {
                        "closure"
                    }
                }
                _ => "fn",
            },
        );
        o.v("span", self.span(tcx.def_span(did)));
        if job.inst.args.len() > 0 {
            let l = job.inst.args.iter().map(|a| J::S(a.to_string())).collect();
            o.v("args", J::A(l));
        }
        if did.is_local() {
            let mut t = Touch { tcx, body: &body, found: Default::default() };
            mir::visit::Visitor::visit_body(&mut t, &body);
            let t = t.found.into_iter().map(|(a, f, w)| {
                J::A(vec![J::S(a), if f == usize::MAX { J::N(-1) } else { J::N(f as i64) }, J::B(w)])
            });
            o.v("touch", J::A(t.collect()));
        }
        self.body_into(&mut o, &body, job);
        let mut ps = vec![];
        for p in promoted.into_iter() {
            let p = job.inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                job.tenv,
                EarlyBinder::bind(tcx, p),
            );
            let mut po = J::obj();
            self.body_into(&mut po, &p, job);
            ps.push(po);
        }
        o.v("promoted", J::A(ps));
        Some(o)
    }

    fn body_into(&mut self, o: &mut J, body: &Body<'tcx>, job: Job<'tcx>) {
        o.n("argc", body.arg_count as i64);
        let mut names: HashMap<mir::Local, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local, v.name.to_string());
                }
            }
        }
        let mut ls = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            match names.get(&l) {
                Some(n) => ls.push(J::A(vec![J::N(t as i64), J::S(n.clone())])),
                None => ls.push(J::A(vec![J::N(t as i64)])),
            }
        }
        o.v("locals", J::A(ls));
        let mut bs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(j) = self.stmt(s, body, job) {
                    st.push(j);
                }
            }
            let t = self.term(bb.terminator(), body, job);
            bs.push(J::A(vec![J::A(st), t, J::B(bb.is_cleanup)]));
        }
        o.v("blocks", J::A(bs));
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut l = vec![J::N(p.local.as_usize() as i64)];
        for e in p.projection.iter() {
            l.push(match e {
                ProjectionElem::Deref => J::S("*".into()),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::S("f".into()), J::N(f.as_usize() as i64), J::N(t as i64)])
                }
                ProjectionElem::Index(l) => {
                    J::A(vec![J::S("i".into()), J::N(l.as_usize() as i64)])
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::S("ci".into()),
                    J::N(offset as i64),
                    J::N(min_length as i64),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    J::S("sub".into()),
                    J::N(from as i64),
                    J::N(to as i64),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(_, v) => {
                    J::A(vec![J::S("v".into()), J::N(v.as_usize() as i64)])
                }
                _ => J::A(vec![J::S("x".into())]),
            });
        }
        J::A(l)
    }

    fn fnref(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, job: Job<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = J::obj();
        let mut path = tcx.def_path_str(did);
        let mut rdid = did;
        let mut rargs = args;
        let kind;
        match Instance::try_resolve(tcx, job.tenv, did, args) {
            Ok(Some(i)) => match i.def {
                ty::InstanceKind::Item(d) => {
                    kind = "item";
                    rdid = d;
                    rargs = i.args;
                }
                ty::InstanceKind::Virtual(..) => kind = "virtual",
                ty::InstanceKind::Intrinsic(_) => kind = "intrinsic",
                _ => kind = "shim",
            },
            _ => kind = "unresolved",
        }
        o.s("kind", kind);
        // the item as named at the call site, and the item it resolves to
        o.s("path", path.clone());
        if rdid != did {
            path = tcx.def_path_str(rdid);
            o.s("rpath", path.clone());
        }
        o.v(
            "args",
            J::A(
                rargs
                    .iter()
                    .filter(|g| g.as_region().is_none())
                    .map(|g| J::S(g.to_string()))
                    .collect(),
            ),
        );
        o.v(
            "targs",
            J::A(
                args.iter()
                    .filter_map(|g| g.as_type())
                    .map(|t| J::N(self.ty(t) as i64))
                    .collect(),
            ),
        );
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.s("trait", tcx.def_path_str(tr));
            o.s("method", tcx.item_name(did).to_string());
            if args.types().next().is_some() {
                let s = self.ty(args.type_at(0));
                o.n("self", s as i64);
            }
        }
        if kind == "item" {
            let parent = tcx.parent(rdid);
            if rdid.is_local() {
                if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                    o.b("derived", tcx.is_automatically_derived(parent));
                }
            }
            let ctor = tcx.is_constructor(rdid);
            if ctor {
                o.b("ctor", true);
                // which variant of which type
                let sig = tcx.fn_sig(rdid).instantiate(tcx, rargs).skip_norm_wip();
                let out = sig.output().skip_binder();
                if let ty::Adt(a, _) = out.kind() {
                    o.s("adt", tcx.def_path_str(a.did()));
                    o.n(
                        "variant",
                        a.variant_index_with_ctor_id(rdid).as_usize() as i64,
                    );
                }
            } else if rdid.is_local() || INLINE_EXTERN.iter().any(|p| self.mod_path(rdid).starts_with(p))
            {
                if rdid.is_local() || tcx.is_mir_available(rdid) {
                    let has_param = rargs.non_erasable_generics().any(|g| match g {
                        ty::GenericArgKind::Type(t) => {
                            use rustc_middle::ty::TypeVisitableExt;
                            t.has_param()
                        }
                        _ => false,
                    });
                    let k = self.enqueue(Job {
                        inst: Instance::new_raw(rdid, rargs),
                        tenv: job.tenv,
                        envdef: if has_param { job.envdef } else { None },
                    });
                    o.s("inst", k);
                }
            }
        }
        o
    }

    fn mod_path(&self, did: DefId) -> String {
        // the module the item is defined in
        let tcx = self.tcx;
        let mut d = did;
        loop {
            if tcx.def_kind(d) == DefKind::Mod {
                return format!("{}::", tcx.def_path_str(d));
            }
            match tcx.opt_parent(d) {
                Some(p) => d = p,
                None => return String::new(),
            }
        }
    }

    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, job: Job<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![J::S("c".into()), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::S("m".into()), self.place(p)]),
            Operand::Constant(c) => {
                let v = self.constant(&c.const_, body, job);
                J::A(vec![J::S("k".into()), v])
            }
            _ => {
                let mut o = J::obj();
                o.b("bool", false);
                o.s("ty", "bool");
                J::A(vec![J::S("k".into()), o])
            }
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, _body: &Body<'tcx>, job: Job<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = J::obj();
        let ti = self.ty(t);
        o.n("t", ti as i64);
        if let ty::FnDef(d, args) = *t.kind() {
            let f = self.fnref(d, args.skip_binder(), job);
            o.v("fn", f);
            return o;
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.n("promoted", p.as_usize() as i64);
                return o;
            }
            o.s("const", tcx.def_path_str(u.def));
        }
        let tenv = job.tenv;
        if let Ok(v) = c.eval(tcx, tenv, rustc_span::DUMMY_SP) {
            self.const_value(&mut o, v, t, job);
        } else {
            o.s("dbg", format!("{c}"));
        }
        o
    }

    fn const_value(&mut self, o: &mut J, v: mir::ConstValue, t: Ty<'tcx>, job: Job<'tcx>) {
        let tcx = self.tcx;
        match v {
            mir::ConstValue::ZeroSized => o.b("zst", true),
            mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                if t.is_bool() {
                    o.b("bool", !i.is_null());
                } else {
                    o.s("int", i.to_bits(i.size()).to_string());
                }
            }
            mir::ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) {
                        o.s("str", String::from_utf8_lossy(b).to_string());
                    } else {
                        o.v("bytes", J::A(b.iter().map(|x| J::N(*x as i64)).collect()));
                    }
                }
            }
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                if let ty::Ref(_, inner, _) = *t.kind() {
                    if let ty::Array(e, n) = *inner.kind() {
                        if e == tcx.types.u8 {
                            if let Some(n) = n.try_to_target_usize(tcx) {
                                let (prov, off) = p.prov_and_relative_offset();
                                if let mir::interpret::GlobalAlloc::Memory(a) =
                                    tcx.global_alloc(prov.alloc_id())
                                {
                                    let s = off.bytes() as usize;
                                    let b = a
                                        .inner()
                                        .inspect_with_uninit_and_ptr_outside_interpreter(
                                            s..s + n as usize,
                                        );
                                    o.v(
                                        "bytes",
                                        J::A(b.iter().map(|x| J::N(*x as i64)).collect()),
                                    );
                                }
                            }
                        }
                    }
                }
            }
            mir::ConstValue::Indirect { .. } => {}
        }
        // what lies in memory: strings, arrays, slices and references to them
        let read = match v {
            mir::ConstValue::Indirect { alloc_id, offset } => self.read_mem(alloc_id, offset.bytes(), t, job, 0),
            mir::ConstValue::Slice { alloc_id, meta } => match *t.kind() {
                ty::Ref(_, x, _) => match *x.kind() {
                    ty::Slice(e) if e != tcx.types.u8 => self.read_seq(alloc_id, 0, e, meta, job, 0),
                    _ => None,
                },
                _ => None,
            },
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => match *t.kind() {
                ty::Ref(_, x, _) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    if matches!(*x.kind(), ty::Array(e, _) if e == tcx.types.u8) {
                        None
                    } else {
                        self.read_mem(prov.alloc_id(), off.bytes(), x, job, 0)
                    }
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(J::O(x)) = read {
            for (k, y) in x {
                if k != "t" {
                    o.v(&k, y);
                }
            }
            return;
        }
        if let Some(d) = self.destructure(v, t, job, 0) {
            o.v("val", d);
        }
    }

    /// n values of type e from a constant's memory
    fn read_seq(&mut self, id: mir::interpret::AllocId, off: u64, e: Ty<'tcx>, n: u64, job: Job<'tcx>, depth: u32) -> Option<J> {
        if n > 256 {
            return None;
        }
        let size = self.tcx.layout_of(job.tenv.as_query_input(e)).ok()?.size.bytes();
        let mut l = vec![];
        for i in 0..n {
            l.push(self.read_mem(id, off + i * size, e, job, depth + 1)?);
        }
        let mut v = J::obj();
        v.v("fields", J::A(l));
        v.b("seq", true);
        let mut o = J::obj();
        o.v("val", v);
        Some(o)
    }

    /// the value of type t in a constant's memory; a reference reads as what it points to
    fn read_mem(&mut self, id: mir::interpret::AllocId, off: u64, t: Ty<'tcx>, job: Job<'tcx>, depth: u32) -> Option<J> {
        use rustc_middle::ty::TypeVisitableExt;
        let tcx = self.tcx;
        if depth > 5 || t.has_param() {
            return None;
        }
        let a = match tcx.global_alloc(id) {
            mir::interpret::GlobalAlloc::Memory(a) => a,
            mir::interpret::GlobalAlloc::Static(d) => {
                if tcx.is_mutable_static(d) || !t.is_freeze(tcx, job.tenv) {
                    return None;
                }
                tcx.eval_static_initializer(d).ok()?
            }
            _ => return None,
        };
        let a = a.inner();
        let word = |at: u64, n: u64| -> Option<u128> {
            let (s, e) = (at as usize, (at + n) as usize);
            if e > a.len() {
                return None;
            }
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(s..e);
            Some(b.iter().rev().fold(0u128, |x, y| (x << 8) | *y as u128))
        };
        let mut o = J::obj();
        let ti = self.ty(t);
        o.n("t", ti as i64);
        match *t.kind() {
            ty::Bool => o.b("bool", word(off, 1)? != 0),
            ty::Char | ty::Int(_) | ty::Uint(_) => {
                let n = tcx.layout_of(job.tenv.as_query_input(t)).ok()?.size.bytes();
                o.s("int", word(off, n)?.to_string());
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                if let J::O(x) = self.read_seq(id, off, e, n, job, depth)? {
                    for (k, y) in x {
                        o.v(&k, y);
                    }
                }
            }
            ty::Tuple(ts) => {
                let l = tcx.layout_of(job.tenv.as_query_input(t)).ok()?;
                let mut fs = vec![];
                for (i, x) in ts.iter().enumerate() {
                    fs.push(self.read_mem(id, off + l.fields.offset(i).bytes(), x, job, depth + 1)?);
                }
                let mut v = J::obj();
                v.v("fields", J::A(fs));
                v.b("tuple", true);
                o.v("val", v);
            }
            ty::Ref(_, x, _) => {
                let prov = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off))?;
                let pid = prov.alloc_id();
                let poff = word(off, 8)? as u64;
                match *x.kind() {
                    ty::Str | ty::Slice(_) => {
                        let n = word(off + 8, 8)? as u64;
                        match *x.kind() {
                            ty::Slice(e) if e != tcx.types.u8 => {
                                if let J::O(y) = self.read_seq(pid, poff, e, n, job, depth)? {
                                    for (k, z) in y {
                                        o.v(&k, z);
                                    }
                                }
                            }
                            _ => {
                                let mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(pid) else { return None };
                                let (s, e) = (poff as usize, (poff + n) as usize);
                                if e > m.inner().len() {
                                    return None;
                                }
                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(s..e);
                                if x.is_str() {
                                    o.s("str", String::from_utf8_lossy(b).to_string());
                                } else {
                                    o.v("bytes", J::A(b.iter().map(|x| J::N(*x as i64)).collect()));
                                }
                            }
                        }
                    }
                    _ => {
                        if let J::O(y) = self.read_mem(pid, poff, x, job, depth + 1)? {
                            for (k, z) in y {
                                if k != "t" {
                                    o.v(&k, z);
                                }
                            }
                        }
                    }
                }
            }
            _ => return None,
        }
        Some(o)
    }

    // structured view of constants of aggregate types
    fn destructure(&mut self, v: mir::ConstValue, t: Ty<'tcx>, job: Job<'tcx>, depth: u32) -> Option<J> {
        if depth > 6 || !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
            return None;
        }
        if matches!(t.kind(), ty::Adt(a, _) if a.is_union()) {
            return None;
        }
        {
            use rustc_middle::ty::TypeVisitableExt;
            if t.has_param() {
                return None;
            }
        }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let mut o = J::obj();
        if let Some(i) = d.variant {
            o.n("variant", i.as_usize() as i64);
        }
        let mut l = vec![];
        for (fv, ft) in d.fields.iter() {
            let mut fo = J::obj();
            let ti = self.ty(*ft);
            fo.n("t", ti as i64);
            let _ = depth;
            self.const_value(&mut fo, *fv, *ft, job);
            l.push(fo);
        }
        o.v("fields", J::A(l));
        Some(o)
    }

    fn stmt(&mut self, s: &mir::Statement<'tcx>, body: &Body<'tcx>, job: Job<'tcx>) -> Option<J> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let mut o = J::obj();
                let pl = self.place(p);
                o.v("p", pl);
                let rv = self.rvalue(r, body, job);
                o.v("r", rv);
                o.v("s", self.span(s.source_info.span));
                Some(o)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let mut o = J::obj();
                let pl = self.place(place);
                o.v("p", pl);
                o.n("setdiscr", variant_index.as_usize() as i64);
                Some(o)
            }
            StatementKind::StorageDead(l) => {
                let mut o = J::obj();
                o.n("dead", l.as_usize() as i64);
                Some(o)
            }
            StatementKind::StorageLive(l) => {
                let mut o = J::obj();
                o.n("live", l.as_usize() as i64);
                Some(o)
            }
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, job: Job<'tcx>) -> J {
        let a = |v: Vec<J>| J::A(v);
        let s = |x: &str| J::S(x.into());
        match r {
            Rvalue::Use(op, ..) => a(vec![s("use"), self.operand(op, body, job)]),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                a(vec![s("repeat"), self.operand(op, body, job), J::N(n)])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                let fake = matches!(bk, mir::BorrowKind::Fake(_));
                a(vec![s("ref"), self.place(p), J::B(m), J::B(fake)])
            }
            Rvalue::RawPtr(_, p) => a(vec![s("ref"), self.place(p), J::B(true), J::B(false)]),
            Rvalue::Cast(k, op, t) => {
                let t = self.ty(*t);
                a(vec![
                    s("cast"),
                    self.operand(op, body, job),
                    J::N(t as i64),
                    J::S(format!("{k:?}")),
                ])
            }
            Rvalue::BinaryOp(b, ops) => a(vec![
                s("bin"),
                J::S(format!("{b:?}")),
                self.operand(&ops.0, body, job),
                self.operand(&ops.1, body, job),
                {
                    let t = ops.0.ty(&body.local_decls, self.tcx);
                    J::N(self.ty(t) as i64)
                },
            ]),
            Rvalue::UnaryOp(u, op) => {
                a(vec![s("un"), J::S(format!("{u:?}")), self.operand(op, body, job)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                a(vec![s("discr"), self.place(p), J::N(self.ty(t) as i64)])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = J::obj();
                match &**k {
                    AggregateKind::Array(_) => o.s("k", "array"),
                    AggregateKind::Tuple => o.s("k", "tuple"),
                    AggregateKind::Adt(d, v, _, _, act) => {
                        o.s("k", "adt");
                        o.s("adt", self.tcx.def_path_str(*d));
                        o.n("v", v.as_usize() as i64);
                        let ad = self.tcx.adt_def(*d);
                        self.adt(ad);
                        if let Some(f) = act {
                            o.n("union", f.as_usize() as i64);
                        }
                    }
                    AggregateKind::Closure(d, args) => {
                        o.s("k", "closure");
                        let k = self.enq_closure(*d, args, job);
                        o.s("inst", k);
                    }
                    AggregateKind::Coroutine(d, args) => {
                        o.s("k", "coroutine");
                        let k = self.enq_closure(*d, args, job);
                        o.s("inst", k);
                    }
                    AggregateKind::CoroutineClosure(d, args) => {
                        o.s("k", "coroutine_closure");
                        let k = self.enq_closure(*d, args, job);
                        o.s("inst", k);
                    }
                    AggregateKind::RawPtr(..) => o.s("k", "rawptr"),
                }
                let l = ops.iter().map(|x| self.operand(x, body, job)).collect();
                a(vec![s("agg"), o, J::A(l)])
            }
            Rvalue::CopyForDeref(p) => {
                a(vec![s("use"), J::A(vec![s("c"), self.place(p)])])
            }
            Rvalue::ThreadLocalRef(d) => a(vec![s("tls"), J::S(self.tcx.def_path_str(*d))]),
            _ => a(vec![s("other"), J::S(format!("{r:?}"))]),
        }
    }

    fn enq_closure(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, job: Job<'tcx>) -> String {
        use rustc_middle::ty::TypeVisitableExt;
        self.enqueue(Job {
            inst: Instance::new_raw(d, args),
            tenv: job.tenv,
            envdef: if args.has_param() { job.envdef } else { None },
        })
    }

    fn term(&mut self, t: &mir::Terminator<'tcx>, body: &Body<'tcx>, job: Job<'tcx>) -> J {
        let mut o = J::obj();
        let tcx = self.tcx;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.s("k", "goto");
                o.n("t", target.as_usize() as i64);
            }
            TerminatorKind::FalseEdge { real_target, .. }
            | TerminatorKind::FalseUnwind { real_target, .. } => {
                o.s("k", "goto");
                o.n("t", real_target.as_usize() as i64);
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.s("k", "switch");
                let d = self.operand(discr, body, job);
                o.v("d", d);
                let dt = discr.ty(&body.local_decls, tcx);
                let dt = self.ty(dt);
                o.n("ty", dt as i64);
                o.v(
                    "targets",
                    J::A(
                        targets
                            .iter()
                            .map(|(v, b)| {
                                J::A(vec![J::S(v.to_string()), J::N(b.as_usize() as i64)])
                            })
                            .collect(),
                    ),
                );
                o.n("otherwise", targets.otherwise().as_usize() as i64);
                o.v("s", self.span(t.source_info.span));
            }
            TerminatorKind::Return => o.s("k", "return"),
            TerminatorKind::Unreachable => o.s("k", "unreachable"),
            TerminatorKind::Drop { place, target, .. } => {
                o.s("k", "drop");
                let ty = place.ty(&body.local_decls, tcx).ty;
                let p = self.place(place);
                o.v("p", p);
                let needs = ty.needs_drop(tcx, job.tenv);
                o.b("needs", needs);
                let ti = self.ty(ty);
                o.n("ty", ti as i64);
                o.n("t", target.as_usize() as i64);
                o.v("s", self.span(t.source_info.span));
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.s("k", "call");
                let f = self.operand(func, body, job);
                o.v("f", f);
                let l = args.iter().map(|x| self.operand(&x.node, body, job)).collect();
                o.v("args", J::A(l));
                let d = self.place(destination);
                o.v("d", d);
                let dty = destination.ty(&body.local_decls, tcx).ty;
                let dty = self.ty(dty);
                o.n("dty", dty as i64);
                if let Some(t) = target {
                    o.n("t", t.as_usize() as i64);
                }
                o.v("s", self.span(t.source_info.span));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.s("k", "assert");
                let c = self.operand(cond, body, job);
                o.v("c", c);
                o.b("e", *expected);
                o.s(
                    "msg",
                    match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(b, ..) => format!("overflow-{b:?}"),
                        mir::AssertKind::OverflowNeg(_) => "overflow-neg".into(),
                        mir::AssertKind::DivisionByZero(_)
                        | mir::AssertKind::RemainderByZero(_) => "div-zero".into(),
                        mir::AssertKind::ResumedAfterReturn(_)
                        | mir::AssertKind::ResumedAfterPanic(_)
                        | mir::AssertKind::ResumedAfterDrop(_) => "resumed".into(),
                        _ => "other".into(),
                    },
                );
                if let mir::AssertKind::BoundsCheck { len, index } = &**msg {
                    let l = self.operand(len, body, job);
                    let i = self.operand(index, body, job);
                    o.v("bounds", J::A(vec![l, i]));
                }
                o.n("t", target.as_usize() as i64);
                o.v("s", self.span(t.source_info.span));
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                o.s("k", "yield");
                let v = self.operand(value, body, job);
                o.v("v", v);
                let p = self.place(resume_arg);
                o.v("p", p);
                o.n("t", resume.as_usize() as i64);
            }
            TerminatorKind::UnwindResume => o.s("k", "resume"),
            TerminatorKind::UnwindTerminate(_) => o.s("k", "abort"),
            TerminatorKind::CoroutineDrop => o.s("k", "coroutine_drop"),
            _ => o.s("k", "other"),
        }
        o
    }
}

#[allow(dead_code)]
fn _unused<'tcx>(_: Unnormalized<'tcx, Ty<'tcx>>) {}
