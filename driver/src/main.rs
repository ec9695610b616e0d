//! rustc driver: compiles a crate exactly as cargo asks for it and, for the crate named in
//! FPD_CRATE, writes the monomorphic MIR of everything reachable from its functions, with resolved
//! callees, plus type/static/unsafe/attribute facts, as JSON to FPD_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => write!(o, "{}", b).unwrap(),
            J::I(i) => write!(o, "{}", i).unwrap(),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    s(*k).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    s(k.clone()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    models: HashMap<String, DefId>,
    ids: HashMap<(Instance<'tcx>, bool), usize>,
    work: Vec<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    bodies: BTreeMap<usize, J>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<J>,
}

fn norm_args<'tcx>(args: ty::GenericArgsRef<'tcx>) -> Vec<ty::GenericArg<'tcx>> {
    args.iter().filter(|a| a.as_region().is_none()).collect()
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.tyid(t))
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.tyout.len();
        self.tys.insert(t, i);
        self.tyout.push(J::N);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(with_no_trimmed_paths!(t.to_string())))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("adt", s(with_no_trimmed_paths!(tcx.def_path_str(def.did())))));
                o.push(("crate", s(tcx.crate_name(def.did().krate).to_string())));
                o.push(("ak", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let ta: Vec<J> = args.types().map(|a| self.ty(a)).collect();
                o.push(("args", J::A(ta)));
                let std = tcx.crate_name(def.did().krate).to_string();
                let full = def.did().is_local() || ((std == "core" || std == "alloc" || std == "std") && def.is_enum());
                if full || def.is_enum() {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = tcx.try_normalize_erasing_regions(
                                TypingEnv::fully_monomorphized(), f.ty(tcx, args));
                            let ft = match ft {
                                Ok(x) => self.ty(x),
                                Err(_) => J::N,
                            };
                            fs.push(J::O(vec![("n", s(f.name.to_string())), ("t", ft), ("pub", J::B(f.vis.is_public()))]));
                        }
                        vs.push(J::O(vec![("n", s(v.name.to_string())), ("f", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                    if def.is_enum() {
                        let ds = def.discriminants(tcx).map(|(_, d)| J::I(d.val as i128)).collect();
                        o.push(("discr", J::A(ds)));
                    }
                } else if def.is_struct() {
                    // foreign structs: field names only (for projections into std adapters)
                    let fs = def.non_enum_variant().fields.iter()
                        .map(|f| J::O(vec![("n", s(f.name.to_string())), ("t", J::N), ("pub", J::B(f.vis.is_public()))])).collect();
                    o.push(("fvariants", J::A(vec![J::O(vec![("n", s("")), ("f", J::A(fs))])])));
                }
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*inner);
                o.push(("t", x));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*inner);
                o.push(("t", x));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let ts: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(ts)));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                let x = self.ty(*x);
                o.push(("t", x));
            }
            ty::Array(x, len) => {
                o.push(("k", s("array")));
                let x = self.ty(*x);
                o.push(("t", x));
                if let Some(l) = len.try_to_target_usize(tcx) {
                    o.push(("len", J::I(l as i128)));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(with_no_trimmed_paths!(tcx.def_path_str(*d)))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(ups)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args: ty::GenericArgsRef<'tcx> = args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, *d));
                let i = self.fninfo(*d, args);
                o.push(("fn", i));
            }
            ty::Bool => o.push(("k", s("bool"))),
            ty::Int(_) => o.push(("k", s("int"))),
            ty::Uint(_) => o.push(("k", s("uint"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        self.tyout[i] = J::O(o);
        i
    }

    fn fninfo(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", s(with_no_trimmed_paths!(tcx.def_path_str(def)))),
            ("crate", s(tcx.crate_name(def.krate).to_string())),
            ("name", s(tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or("{closure}".into()))),
        ];
        let mut tr = J::N;
        let mut st = J::N;
        if let Some(p) = tcx.opt_parent(def) {
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let t = tcx.type_of(p).instantiate(tcx, args).skip_norm_wip();
                    let t = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(t)).unwrap_or(t);
                    st = self.ty(t);
                    if of_trait {
                        tr = s(with_no_trimmed_paths!(tcx.def_path_str(tcx.impl_trait_id(p))));
                    }
                }
                DefKind::Trait => {
                    tr = s(with_no_trimmed_paths!(tcx.def_path_str(p)));
                    if args.len() > 0 {
                        if let Some(t) = args[0].as_type() {
                            st = self.ty(t);
                        }
                    }
                }
                _ => {}
            }
        }
        o.push(("trait", tr));
        o.push(("self", st));
        let ta: Vec<J> = args.types().map(|a| self.ty(a)).collect();
        o.push(("args", J::A(ta)));
        J::O(o)
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp2 = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp2.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, lo.line))
    }

    /// Name under which a model of this callee would be found: `Type__method` / `Trait__method`.
    fn model_key(&self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if def.is_local() {
            return None;
        }
        let name = tcx.opt_item_name(def)?;
        let p = tcx.opt_parent(def)?;
        match tcx.def_kind(p) {
            DefKind::Trait => Some(format!("{}__{}", tcx.item_name(p), name)),
            DefKind::Impl { of_trait } => {
                let t = tcx.type_of(p).instantiate(tcx, args).skip_norm_wip();
                match t.kind() {
                    ty::Adt(d, _) if !of_trait => Some(format!("{}__{}", tcx.item_name(d.did()), name)),
                    ty::Adt(d, _) => Some(format!("{}__{}__{}", tcx.item_name(d.did()), tcx.item_name(tcx.impl_trait_id(p)), name)),
                    ty::Bool if !of_trait => Some(format!("bool__{}", name)),
                    ty::Slice(_) if !of_trait => Some(format!("slice__{}", name)),
                    _ => None,
                }
            }
            _ => Some(format!("fn__{}", name)),
        }
    }

    fn want_body(&self, inst: &Instance<'tcx>) -> bool {
        let def = inst.def_id();
        match inst.def {
            ty::InstanceKind::Item(_) => {}
            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => {}
            _ => return false,
        }
        if def.is_local() {
            return self.tcx.is_mir_available(def);
        }
        let c = self.tcx.crate_name(def.krate).to_string();
        if !self.tcx.is_mir_available(def) {
            return false;
        }
        if c == "stdmodel" {
            return true;
        }
        // plain-data combinators of the standard library are analysed from their own MIR
        if c == "core" || c == "alloc" || c == "std" {
            let p = self.tcx.def_path(def).to_string_no_crate_verbose();
            const OK: &[&str] = &["::option::", "::result::", "::bool::", "::cmp::", "::iter::adapters::", "::iter::sources::", "::iter::traits::iterator::", "::iter::traits::double_ended::",
                "::iter::traits::collect::", "::ops::control_flow::", "::ops::function::", "::ops::try_trait::", "::ops::range::", "::convert::", "::mem::take", "::borrow::"];
            return OK.iter().any(|x| p.starts_with(x));
        }
        false
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, generic: bool) -> usize {
        if let Some(&i) = self.ids.get(&(inst, generic)) {
            return i;
        }
        let i = self.ids.len();
        self.ids.insert((inst, generic), i);
        self.work.push((inst, env, i));
        i
    }

    /// Resolves a callee; returns JSON {fn, inst?, orig}
    fn callee(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, generic: bool) -> J {
        let tcx = self.tcx;
        // 1. model of the callee as written (trait method before resolution)
        let try_model = |me: &Self, d: DefId, a: ty::GenericArgsRef<'tcx>| -> Option<(DefId, Vec<ty::GenericArg<'tcx>>)> {
            let k = me.model_key(d, a)?;
            let a = norm_args(a);
            if let Some(&m) = me.models.get(&k) {
                if tcx.generics_of(m).count() == a.len() {
                    return Some((m, a));
                }
                // allow the model to drop trailing generic args (allocators)
                let c = tcx.generics_of(m).count();
                if c < a.len() {
                    return Some((m, a[..c].to_vec()));
                }
            }
            // collect() and extend() by container
            for (pre, idx) in [("Iterator__collect", 1usize), ("Extend__extend", 0), ("FromIterator__from_iter", 0)] {
                if k == pre {
                    if let Some(b) = a.get(idx).and_then(|x| x.as_type()) {
                        if let ty::Adt(d, dargs) = b.kind() {
                            // collect::<Result<Vec<T>, E>>()
                            if pre == "Iterator__collect" && tcx.item_name(d.did()).as_str() == "Result" {
                                let ts: Vec<_> = dargs.types().collect();
                                if let Some(ty::Adt(vd, vargs)) = ts.first().map(|x| x.kind()) {
                                    if tcx.item_name(vd.did()).as_str() == "Vec" {
                                        let toks = matches!(a[0].as_type().map(|x| x.kind()), Some(ty::Adt(md, margs)) if tcx.item_name(md.did()).as_str() == "Map"
                                            && margs.types().next().map_or(false, |x| { let s = format!("{:?}", x); s.contains("::SplitWhitespace") || s.contains("::SplitAsciiWhitespace") || s.contains("str::Split<") || s.ends_with(" str>") || s.ends_with("&str>") }));
                                        let k2 = if toks { "Iterator__collect__TokResult" } else { "Iterator__collect__ResultVec" };
                                        if let Some(&m) = me.models.get(k2) {
                                            return Some((m, vec![a[0], vargs.types().next().unwrap().into(), ts[1].into()]));
                                        }
                                    }
                                }
                            }
                            let mut k2 = format!("{}__{}", pre, tcx.item_name(d.did()));
                            if k2 == "Iterator__collect__Vec" {
                                if let Some(ty::Adt(md, margs)) = a[0].as_type().map(|x| x.kind()) {
                                    let src = margs.types().next().map(|x| format!("{:?}", x)).unwrap_or_default();
                                    if tcx.item_name(md.did()).as_str() == "Map" && (src.contains("::SplitWhitespace") || src.contains("::SplitAsciiWhitespace") || src.contains("str::Split<") || src.ends_with(" str>") || src.ends_with("&str>")) {
                                        k2 = "Iterator__collect__TokVec".to_string();
                                    }
                                }
                            }
                            if let Some(&m) = me.models.get(&k2) {
                                if d.is_enum() { continue; }
                                let it = match pre {
                                    "Iterator__collect" => a[0],
                                    "Extend__extend" => *a.last().unwrap(),
                                    _ => *a.last().unwrap(),
                                };
                                let mut v = vec![it];
                                if tcx.generics_of(m).count() == 2 {
                                    v.push(dargs.types().next().unwrap().into());
                                }
                                return Some((m, v));
                            }
                        }
                    }
                }
            }
            None
        };
        // user-defined impls win over trait-method models
        let mut resolved = None;
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, def, tcx.erase_and_anonymize_regions(args)) {
            resolved = Some(i);
        }
        let local_res = resolved.map_or(false, |i| i.def_id().is_local());
        let orig = self.fninfo(def, args);
        if !local_res {
            let mut m = try_model(self, def, args);
            if m.is_none() {
                if let Some(i) = resolved {
                    if i.def_id() != def {
                        m = try_model(self, i.def_id(), i.args);
                    }
                }
            }
            if let Some((md, margs)) = m {
                let margs = tcx.mk_args(&margs);
                if let Ok(Some(mi)) = Instance::try_resolve(tcx, env, md, tcx.erase_and_anonymize_regions(margs)) {
                    let f = self.fninfo(md, margs);
                    let id = self.enqueue(mi, env, generic);
                    return J::O(vec![("fn", f), ("inst", n(id)), ("orig", orig), ("model", J::B(true))]);
                }
            }
        }
        if let Some(i) = resolved {
            let f = self.fninfo(i.def_id(), i.args);
            let kind = match i.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "once_shim",
                ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr_shim",
                ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
                ty::InstanceKind::Intrinsic(..) => "intrinsic",
                ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop",
                _ => "other",
            };
            let mut o = vec![("fn", f), ("orig", orig), ("ik", s(kind))];
            // a closure called through FnOnce: use the closure body itself
            let (inst, once) = match i.def {
                ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => {
                    let cty = i.args.type_at(0);
                    if let ty::Closure(d, a) = cty.kind() {
                        (Instance::new_raw(*d, a), true)
                    } else {
                        (i, false)
                    }
                }
                ty::InstanceKind::Shim(ty::ShimKind::FnPtr(_, t)) => {
                    if let ty::FnDef(d, a) = t.kind() {
                        match a.no_bound_vars().and_then(|a| Instance::try_resolve(tcx, env, *d, a).ok()) {
                            Some(Some(x)) => { o.push(("fnitem", J::B(true))); let f2 = self.fninfo(x.def_id(), x.args); o[0] = ("fn", f2); (x, false) }
                            _ => (i, false),
                        }
                    } else { (i, false) }
                }
                _ => (i, false),
            };
            if once {
                o.push(("once", J::B(true)));
            }
            if self.want_body(&inst) {
                let id = self.enqueue(inst, env, generic);
                o.push(("inst", n(id)));
            }
            return J::O(o);
        }
        J::O(vec![("fn", orig.clone()), ("orig", orig), ("ik", s("unresolved"))])
    }

    fn alloc_bytes(&self, id: AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let sz = a.size().bytes();
                let end = len.map_or(sz, |l| off + l).min(sz);
                if a.provenance().ptrs().is_empty() || len.is_some() {
                    Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize).to_vec())
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn cnst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, generic: bool) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("k", s("const")), ("t", self.ty(t))];
        if let ty::FnDef(d, a) = t.kind() {
            if let Some(a) = a.no_bound_vars() {
                let f = self.callee(*d, a, env, generic);
                o.push(("callee", f));
            }
            return J::O(o);
        }
        if let ty::Closure(d, a) = t.kind() {
            let inst = Instance::new_raw(*d, a);
            if self.want_body(&inst) {
                let id = self.enqueue(inst, env, generic);
                o.push(("closure_inst", n(id)));
            }
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                o.push(("named", s(with_no_trimmed_paths!(tcx.def_path_str(u.def)))));
            }
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => match v {
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let bits = i.to_bits_unchecked();
                    if t.is_signed() {
                        let v = i.size().sign_extend(bits);
                        o.push(("v", J::I(v as i128)));
                    } else if bits <= i128::MAX as u128 {
                        o.push(("v", J::I(bits as i128)));
                    } else {
                        o.push(("v", s(bits.to_string())));
                    }
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    let id = prov.alloc_id();
                    match tcx.try_get_global_alloc(id) {
                        Some(GlobalAlloc::Static(d)) => {
                            o.push(("static", s(with_no_trimmed_paths!(tcx.def_path_str(d)))));
                            o.push(("static_crate", s(tcx.crate_name(d.krate).to_string())));
                        }
                        Some(GlobalAlloc::Memory(_)) => {
                            if let Some(b) = self.alloc_bytes(id, off.bytes(), None) {
                                o.push(("ref_bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                            } else {
                                // pointer-carrying allocation, e.g. &[&str]: list the pointed-to strings
                                if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(id) {
                                    let a = a.inner();
                                    let mut v = vec![];
                                    for (of, pr) in a.provenance().ptrs().iter() {
                                        let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.size().bytes() as usize);
                                        let of = of.bytes() as usize;
                                        let rd = |x: usize| -> u64 { if x + 8 <= raw.len() { u64::from_le_bytes(raw[x..x + 8].try_into().unwrap()) } else { 0 } };
                                        let ioff = rd(of);
                                        let ln = rd(of + 8);
                                        if let Some(b) = self.alloc_bytes(pr.alloc_id(), ioff, Some(ln)) {
                                            v.push(s(String::from_utf8_lossy(&b).to_string()));
                                        }
                                    }
                                    o.push(("ref_strs", J::A(v)));
                                }
                            }
                        }
                        _ => {}
                    }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.alloc_bytes(alloc_id, 0, Some(meta)) {
                        if matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) {
                            o.push(("str", s(String::from_utf8_lossy(&b).to_string())));
                        } else {
                            o.push(("ref_bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                        }
                    }
                }
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Indirect { alloc_id, offset } => {
                    if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), None) {
                        o.push(("ind_bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                    }
                }
            },
            Err(_) => {}
        }
        J::O(o)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pt = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut pr = vec![];
        for e in p.projection.iter() {
            let base = pt;
            pt = pt.projection_ty(tcx, e);
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => {
                    let mut nm = f.index().to_string();
                    if let ty::Adt(d, _) = base.ty.kind() {
                        let v = base.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if let Some(fd) = d.variants().get(v).and_then(|v| v.fields.get(f)) {
                            nm = fd.name.to_string();
                        }
                    }
                    let bt = self.ty(base.ty);
                    J::A(vec![s("f"), s(nm), bt])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.index())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => {
                    let nm = if let ty::Adt(d, _) = base.ty.kind() { d.variant(v).name.to_string() } else { v.index().to_string() };
                    J::A(vec![s("d"), s(nm), n(v.index())])
                }
                _ => J::A(vec![s("?")]),
            });
        }
        let t = self.ty(pt.ty);
        J::A(vec![n(p.local.index()), J::A(pr), t])
    }

    fn op(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>, generic: bool) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(body, p))]),
            Operand::Constant(c) => self.cnst(c, env, generic),
            Operand::RuntimeChecks(r) => J::O(vec![("k", s("rtcheck")), ("c", s(format!("{:?}", r)))]),
        }
    }

    fn rv(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, g: bool) -> J {
        match r {
            Rvalue::Use(o, _) => J::O(vec![("k", s("use")), ("o", self.op(body, o, env, g))]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(self.tcx);
                J::O(vec![("k", s("repeat")), ("o", self.op(body, o, env, g)), ("n", l.map_or(J::N, |x| J::I(x as i128)))])
            }
            Rvalue::Ref(_, bk, p) => J::O(vec![("k", s("ref")), ("p", self.place(body, p)), ("mut", J::B(matches!(bk, BorrowKind::Mut { .. })))]),
            Rvalue::RawPtr(k, p) => J::O(vec![("k", s("rawptr")), ("p", self.place(body, p)), ("mut", J::B(format!("{:?}", k).contains("Mut")))]),
            Rvalue::ThreadLocalRef(d) => J::O(vec![("k", s("tls")), ("d", s(with_no_trimmed_paths!(self.tcx.def_path_str(*d))))]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, self.tcx);
                J::O(vec![("k", s("cast")), ("ck", s(format!("{:?}", k))), ("o", self.op(body, o, env, g)), ("from", self.ty(from)), ("t", self.ty(*t))])
            }
            Rvalue::BinaryOp(b, ops) => J::O(vec![("k", s("bin")), ("op", s(format!("{:?}", b))), ("a", self.op(body, &ops.0, env, g)), ("b", self.op(body, &ops.1, env, g))]),
            Rvalue::UnaryOp(u, o) => J::O(vec![("k", s("un")), ("op", s(format!("{:?}", u))), ("a", self.op(body, o, env, g))]),
            Rvalue::Discriminant(p) => J::O(vec![("k", s("discr")), ("p", self.place(body, p))]),
            Rvalue::Aggregate(k, ops) => {
                let ops_j: Vec<J> = ops.iter().map(|o| self.op(body, o, env, g)).collect();
                let mut o = vec![("k", s("agg")), ("ops", J::A(ops_j))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        o.push(("ak", s("adt")));
                        let def = self.tcx.adt_def(*d);
                        o.push(("variant", s(def.variant(*v).name.to_string())));
                        o.push(("vi", n(v.index())));
                        o.push(("fields", J::A(def.variant(*v).fields.iter().map(|f| s(f.name.to_string())).collect())));
                        let t = Ty::new_adt(self.tcx, def, a);
                        let t = self.ty(t);
                        o.push(("t", t));
                    }
                    AggregateKind::Closure(d, a) => {
                        o.push(("ak", s("closure")));
                        let inst = Instance::new_raw(*d, a);
                        if self.want_body(&inst) {
                            let id = self.enqueue(inst, env, g);
                            o.push(("inst", n(id)));
                        }
                    }
                    _ => o.push(("ak", s("other"))),
                }
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", self.place(body, p))]))]),
            _ => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", r)))]),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, generic: bool) -> J {
        let tcx = self.tcx;
        let b = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = if generic {
            match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone())) {
                Ok(x) => x,
                Err(_) => b.clone(),
            }
        } else {
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone()))
        };
        let g = generic;
        let locals: Vec<J> = body.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local.index()), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            let mut sg = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&body, &a.0);
                        let r = self.rv(&body, &a.1, env, g);
                        st.push(J::O(vec![("p", p), ("r", r), ("sp", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(&body, place);
                        st.push(J::O(vec![("p", p), ("r", J::O(vec![("k", s("setdiscr")), ("vi", n(variant_index.index()))])), ("sp", sp)]));
                    }
                    StatementKind::StorageLive(l) => sg.push(J::A(vec![n(l.index()), J::B(true)])),
                    StatementKind::StorageDead(l) => sg.push(J::A(vec![n(l.index()), J::B(false)])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", n(target.index()))]),
                TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("k", s("goto")), ("t", n(real_target.index()))]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", s("goto")), ("t", n(real_target.index()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(&body, discr, env, g);
                    let tt = self.ty(discr.ty(&body, tcx));
                    let tg = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), n(b.index())])).collect();
                    J::O(vec![("k", s("switch")), ("o", o), ("ty", tt), ("ts", J::A(tg)), ("else", n(targets.otherwise().index()))])
                }
                TerminatorKind::Return => J::O(vec![("k", s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", s("resume"))]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(&body, place);
                    J::O(vec![("k", s("drop")), ("p", p), ("t", n(target.index()))])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(&body, cond, env, g);
                    let mk = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::DivisionByZero(_) => "divzero".into(),
                        AssertKind::RemainderByZero(_) => "remzero".into(),
                        _ => "other".into(),
                    };
                    J::O(vec![("k", s("assert")), ("c", c), ("exp", J::B(*expected)), ("m", s(mk)), ("t", n(target.index()))])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.op(&body, func, env, g);
                    let a: Vec<J> = args.iter().map(|x| self.op(&body, &x.node, env, g)).collect();
                    let d = self.place(&body, destination);
                    let fs = self.span(*fn_span);
                    J::O(vec![("k", s("call")), ("f", f), ("a", J::A(a)), ("d", d), ("t", target.map_or(J::N, |x| n(x.index()))), ("fsp", fs)])
                }
                _ => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", t.kind)))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("sg", J::A(sg)), ("t", tj), ("sp", sp), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let f = self.fninfo(inst.def_id(), inst.args);
        let sp = self.span(tcx.def_span(inst.def_id()));
        J::O(vec![
            ("fn", f),
            ("generic", J::B(generic)),
            ("model", J::B(!inst.def_id().is_local())),
            ("argc", n(body.arg_count)),
            ("spread", body.spread_arg.map_or(J::N, |l| n(l.index()))),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("sp", sp),
            ("closure", J::B(tcx.is_closure_like(inst.def_id()))),
        ])
    }
}

struct UnsafeVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, rustc_span::Span)>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let ext = b.span.ctxt().outer_expn_data();
            let m = ext.macro_def_id.map(|d| self.tcx.crate_name(d.krate).to_string()).unwrap_or_default();
            self.found.push((format!("block|{}", m), b.span));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait {
                    if matches!(t.safety, rustc_hir::Safety::Unsafe) {
                        let ext = i.span.ctxt().outer_expn_data();
                        let m = ext.macro_def_id.map(|d| self.tcx.crate_name(d.krate).to_string()).unwrap_or_default();
                        self.found.push((format!("unsafe impl|{}", m), i.span));
                    }
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => self.found.push(("extern block|".into(), i.span)),
            rustc_hir::ItemKind::GlobalAsm { .. } => self.found.push(("global asm|".into(), i.span)),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i);
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("FPD_CRATE").unwrap_or_default();
        let out = std::env::var("FPD_OUT").unwrap_or_default();
        if want.is_empty() || tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let mut models = HashMap::new();
        for c in tcx.crates(()) {
            if tcx.crate_name(*c).as_str() == "stdmodel" {
                for ch in tcx.module_children(c.as_def_id()) {
                    if let rustc_hir::def::Res::Def(DefKind::Fn, d) = ch.res {
                        models.insert(ch.ident.to_string(), d);
                    }
                }
            }
        }
        let nmodels = models.len();
        let mut d = Dump { tcx, models, ids: HashMap::new(), work: vec![], bodies: BTreeMap::new(), tys: HashMap::new(), tyout: vec![] };
        // roots: every body owner
        let mut roots = vec![];
        for l in tcx.hir_body_owners() {
            let def = l.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let g = tcx.generics_of(def);
            let has_ty = g.requires_monomorphization(tcx);
            let args = ty::GenericArgs::identity_for_item(tcx, def);
            let args = tcx.erase_and_anonymize_regions(args);
            let env = if has_ty { TypingEnv::post_analysis(tcx, def) } else { TypingEnv::fully_monomorphized() };
            let inst = Instance::new_raw(def, args);
            let id = d.enqueue(inst, env, has_ty);
            let vis = tcx.effective_visibilities(()).is_reachable(l);
            roots.push(J::O(vec![
                ("inst", n(id)),
                ("path", s(with_no_trimmed_paths!(tcx.def_path_str(def)))),
                ("generic", J::B(has_ty)),
                ("reachable", J::B(vis)),
                ("unsafe_fn", J::B(tcx.fn_sig(def).skip_binder().safety().is_unsafe())),
                ("extern", J::B({
                    let a = tcx.codegen_fn_attrs(def);
                    a.contains_extern_indicator() || a.link_section.is_some()
                })),
                ("sp", d.span(tcx.def_span(def))),
            ]));
        }
        while let Some((inst, env, id)) = d.work.pop() {
            let generic = *d.ids.iter().find(|(k, v)| **v == id && k.0 == inst).map(|(k, _)| &k.1).unwrap();
            let j = d.body(inst, env, generic);
            d.bodies.insert(id, j);
        }
        // types, statics, unsafe
        let mut adts = vec![];
        let mut statics = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let l: LocalDefId = l;
            let def = l.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let gen_ = tcx.generics_of(def).requires_monomorphization(tcx);
                    let env = TypingEnv::post_analysis(tcx, def);
                    let tj = d.ty(t);
                    let tr = |name: rustc_span::Symbol| -> bool {
                        use rustc_infer::infer::TyCtxtInferExt;
                        use rustc_trait_selection::infer::InferCtxtExt;
                        let Some(did) = tcx.get_diagnostic_item(name).or_else(|| if name.as_str() == "Sync" { tcx.lang_items().sync_trait() } else { None }) else { return false };
                        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                        infcx.type_implements_trait(did, [t], penv).must_apply_modulo_regions()
                    };
                    let attrs: Vec<J> = vec![];
                    adts.push(J::O(vec![
                        ("t", tj),
                        ("path", s(with_no_trimmed_paths!(tcx.def_path_str(def)))),
                        ("generic", J::B(gen_)),
                        ("reachable", J::B(tcx.effective_visibilities(()).is_reachable(l))),
                        ("send", J::B(tr(rustc_span::sym::Send))),
                        ("sync", J::B(tr(rustc_span::Symbol::intern("Sync")))),
                        ("freeze", J::B(t.is_freeze(tcx, env))),
                        ("attrs", J::A(attrs)),
                        ("sp", d.span(tcx.def_span(def))),
                    ]));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::fully_monomorphized();
                    statics.push(J::O(vec![
                        ("path", s(with_no_trimmed_paths!(tcx.def_path_str(def)))),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(t.is_freeze(tcx, env))),
                        ("tls", J::B(tcx.is_thread_local_static(def))),
                        ("extern", J::B({
                            let a = tcx.codegen_fn_attrs(def);
                            a.contains_extern_indicator() || a.link_section.is_some()
                        })),
                        ("t", d.ty(t)),
                        ("sp", d.span(tcx.def_span(def))),
                    ]));
                }
                _ => {}
            }
        }
        let mut uv = UnsafeVisitor { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut uv);
        let uns: Vec<J> = uv.found.iter().map(|(k, sp)| J::A(vec![s(k.clone()), d.span(*sp)])).collect();
        let bodies: BTreeMap<String, J> = std::mem::take(&mut d.bodies).into_iter().map(|(k, v)| (k.to_string(), v)).collect();
        let j = J::O(vec![
            ("crate", s(want)),
            ("nmodels", n(nmodels)),
            ("roots", J::A(roots)),
            ("bodies", J::M(bodies)),
            ("tys", J::A(std::mem::take(&mut d.tyout))),
            ("adts", J::A(adts)),
            ("statics", J::A(statics)),
            ("unsafe", J::A(uns)),
            ("overflow_checks", J::B(tcx.sess.overflow_checks())),
            ("debug_assertions", J::B(tcx.sess.opts.debug_assertions)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&out, o).expect("cannot write FPD_OUT");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("FPD_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
        if let Ok(m) = std::env::var("FPD_MODEL") {
            args.push("-Zunstable-options".into());
            args.push("--extern".into());
            args.push(format!("force:stdmodel={}", m));
        }
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
