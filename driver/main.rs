// MIR extraction driver.
//
// Compiles one crate (a harness file that calls the public API of sqrid through generic
// root functions) and, instead of generating code, writes the MIR of every function reachable from
// the roots as JSON. Calls are resolved through the type checker (trait methods, provided methods,
// closures, shims) in the typing environment of the root, so the dump is polymorphic in the const
// and type parameters of the roots.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_middle::mir;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::print::{with_forced_trimmed_paths, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

#[derive(Clone)]
enum Work<'tcx> {
    Fn(Instance<'tcx>, TypingEnv<'tcx>),
    Const(DefId, ty::GenericArgsRef<'tcx>, Option<mir::Promoted>, TypingEnv<'tcx>),
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    types_out: Vec<String>,
    queue: VecDeque<(String, Work<'tcx>)>,
    seen: HashSet<String>,
    bodies: BTreeMap<String, String>,
}

const EXPAND: &[&str] = &[
    "core::option", "core::result", "core::cmp", "core::convert", "core::num", "core::ops",
    "core::iter", "core::clone", "core::default", "core::bool", "core::tuple", "core::array::equality",
];
// Inside the expanded modules, never expanded:
const NOEXPAND: &[&str] = &["core::num::flt2dec", "core::num::dec2flt", "core::num::fmt",
    "core::option::unwrap_failed", "core::result::unwrap_failed", "core::option::expect_failed"];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    // module path of a definition (crate::mod::mod), following parents to the module
    fn module(&self, d: DefId) -> String {
        let mut m = d;
        while self.tcx.def_kind(m) != DefKind::Mod {
            match self.tcx.opt_parent(m) {
                Some(p) => m = p,
                None => break,
            }
        }
        let k = self.tcx.crate_name(d.krate).to_string();
        let mut s = k;
        for e in self.tcx.def_path(m).data {
            let _ = write!(s, "::{}", e.data);
        }
        s
    }
    fn expandable(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let k = self.tcx.crate_name(d.krate).to_string();
        if k == "sqrid" {
            return true;
        }
        if k != "core" {
            return false;
        }
        let m = self.module(d);
        let p = self.path(d);
        if NOEXPAND.iter().any(|x| p.starts_with(x) || m.starts_with(x)) {
            return false;
        }
        EXPAND.iter().any(|x| m == *x || (m.starts_with(x) && m[x.len()..].starts_with("::")))
    }

    fn konst(&mut self, c: ty::Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        // type-level constant
        let c = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(c)).unwrap_or(c);
        match c.kind() {
            ty::ConstKind::Param(p) => format!("{{\"k\":\"param\",\"name\":{}}}", js(p.name.as_str())),
            ty::ConstKind::Value(v) => {
                if let Some(s) = v.try_to_leaf() {
                    let t = self.ty(v.ty, env);
                    return format!("{{\"k\":\"int\",\"v\":\"{}\",\"ty\":{}}}", self.scalar_int(s, v.ty), t);
                }
                if matches!(v.ty.kind(), ty::Ref(..) | ty::Array(..) | ty::Tuple(..) | ty::Adt(..)) {
                    let val = self.tcx.valtree_to_const_val(v);
                    return self.mirconst(&mir::Const::Val(val, v.ty), env);
                }
                format!("{{\"k\":\"opaque\",\"s\":{}}}", js(&format!("{c:?}")))
            }
            _ => format!("{{\"k\":\"opaque\",\"s\":{}}}", js(&with_no_trimmed_paths!(format!("{c}")))),
        }
    }
    fn scalar_int(&self, s: ty::ScalarInt, t: Ty<'tcx>) -> String {
        let size = s.size();
        if t.is_signed() {
            format!("{}", s.to_int(size))
        } else {
            format!("{}", s.to_uint(size))
        }
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.types_out.len();
        self.types.insert(t, i);
        self.types_out.push(String::new());
        let name = with_no_trimmed_paths!(format!("{t}"));
        let tcx = self.tcx;
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Int(x) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", x.bit_width().unwrap_or(64)),
            ty::Uint(x) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", x.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Tuple(l) => {
                let v: Vec<String> = l.iter().map(|x| self.ty(x, env).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":[{}]", v.join(","))
            }
            ty::Array(e, n) => {
                let e = self.ty(e, env);
                let n = self.konst(n, env);
                format!("\"k\":\"array\",\"elem\":{e},\"len\":{n}")
            }
            ty::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e, env)),
            ty::Ref(_, e, m) => format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(e, env), m.is_mut()),
            ty::RawPtr(e, m) => format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(e, env), m.is_mut()),
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", js(p.name.as_str())),
            ty::Closure(d, args) => {
                if self.expandable(d) && self.tcx.is_mir_available(d) {
                    let i = Instance::new_raw(d, self.tcx.erase_and_anonymize_regions(args));
                    self.push(self.inst_key(i), Work::Fn(i, env));
                }
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x, env).to_string()).collect();
                format!("\"k\":\"closure\",\"def\":{},\"upvars\":[{}],\"ckind\":{}", js(&self.path(d)), up.join(","),
                    js(&format!("{:?}", args.as_closure().kind())))
            }
            ty::FnDef(d, args) => {
                let c = self.callee(d, args.skip_binder(), env);
                format!("\"k\":\"fndef\",\"callee\":{c}")
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut s = format!("\"k\":\"adt\",\"path\":{},\"akind\":\"{}\"", js(&self.path(def.did())), kind);
                let mut a = vec![];
                for g in args.iter() {
                    match g.kind() {
                        ty::GenericArgKind::Type(x) => a.push(format!("{{\"ty\":{}}}", self.ty(x, env))),
                        ty::GenericArgKind::Const(c) => a.push(format!("{{\"c\":{}}}", self.konst(c, env))),
                        _ => (),
                    }
                }
                let _ = write!(s, ",\"args\":[{}]", a.join(","));
                let k = tcx.crate_name(def.did().krate).to_string();
                let show = def.did().is_local() || k == "sqrid" || k == "core" || def.is_enum() && (k == "std" || k == "alloc");
                if show && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let disc = if def.is_enum() {
                            let dd = def.discriminant_for_variant(tcx, vi);
                            if dd.ty.is_signed() {
                                let sz = tcx.layout_of(env.as_query_input(dd.ty)).unwrap().size;
                                sz.sign_extend(dd.val).to_string()
                            } else {
                                dd.val.to_string()
                            }
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.try_normalize_erasing_regions(env, ft).unwrap_or(ft.skip_norm_wip());
                            let vis = f.vis.is_public();
                            fs.push(format!("{{\"name\":{},\"ty\":{},\"pub\":{}}}", js(f.name.as_str()), self.ty(ft, env), vis));
                        }
                        vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}", js(v.name.as_str()), disc, fs.join(",")));
                    }
                    let _ = write!(s, ",\"variants\":[{}]", vs.join(","));
                }
                s
            }
            _ => format!("\"k\":\"other\",\"dbg\":{}", js(&format!("{:?}", t.kind()))),
        };
        self.types_out[i] = format!("{{\"name\":{},{}}}", js(&name), body);
        i
    }

    fn inst_key(&self, i: Instance<'tcx>) -> String {
        let kind = match i.def {
            InstanceKind::Item(_) => String::new(),
            k => format!(" [{:?}]", k),
        };
        let d = i.def.def_id();
        let a: Vec<String> = i.args.iter().filter(|g| !matches!(g.kind(), ty::GenericArgKind::Lifetime(_)))
            .map(|g| with_no_trimmed_paths!(format!("{g}"))).collect();
        format!("{}<{}>{}", with_no_trimmed_paths!(self.raw_path(d)), a.join(", "), kind)
    }
    fn raw_path(&self, d: DefId) -> String {
        let mut s = self.tcx.crate_name(d.krate).to_string();
        s.push_str(&self.tcx.def_path(d).to_string_no_crate_verbose());
        s
    }

    // Everything the analysis needs to know about a callee
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        let mut s = format!("{{\"path\":{},\"name\":{}", js(&self.path(d)), js(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str()));
        let _ = write!(s, ",\"krate\":{}", js(tcx.crate_name(d.krate).as_str()));
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", js(&self.path(t)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(d).skip_binder().safety().is_safe() {
            s.push_str(",\"unsafe\":true");
        }
        let mut a = vec![];
        for g in args.iter() {
            match g.kind() {
                ty::GenericArgKind::Type(x) => a.push(format!("{{\"ty\":{}}}", self.ty(x, env))),
                ty::GenericArgKind::Const(c) => a.push(format!("{{\"c\":{}}}", self.konst(c, env))),
                _ => (),
            }
        }
        let _ = write!(s, ",\"args\":[{}]", a.join(","));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, d, args)));
        let res = match res {
            Ok(Ok(Some(i))) => Some(i),
            _ => None,
        };
        match res {
            None => s.push_str(",\"res\":\"opaque\""),
            Some(i) => {
                let rd = i.def.def_id();
                let _ = write!(s, ",\"rpath\":{},\"rkrate\":{}", js(&self.path(rd)), js(tcx.crate_name(rd.krate).as_str()));
                match i.def {
                    InstanceKind::Intrinsic(_) => s.push_str(",\"res\":\"intrinsic\""),
                    InstanceKind::Virtual(..) => s.push_str(",\"res\":\"virtual\""),
                    InstanceKind::Item(rd) => {
                        if let Some(it) = tcx.impl_of_assoc(rd) {
                            let st = tcx.type_of(it).instantiate_identity().skip_norm_wip();
                            let _ = write!(s, ",\"impl_self\":{}", js(&with_no_trimmed_paths!(format!("{st}"))));
                        }
                        let key = self.inst_key(i);
                        let _ = write!(s, ",\"key\":{}", js(&key));
                        if self.expandable(rd) && tcx.is_mir_available(rd) && !tcx.is_foreign_item(rd) {
                            s.push_str(",\"res\":\"item\"");
                            self.push(key, Work::Fn(i, env));
                        } else {
                            s.push_str(",\"res\":\"extern\"");
                            if let Some(x) = self.drained(rd, i.args, env) {
                                s.push_str(&x);
                            }
                        }
                    }
                    InstanceKind::Shim(sh) => {
                        let key = self.inst_key(i);
                        let _ = write!(s, ",\"key\":{}", js(&key));
                        match sh {
                            ShimKind::ClosureOnce { closure, .. } => {
                                let _ = write!(s, ",\"closure\":{}", js(&self.path(closure)));
                                s.push_str(",\"res\":\"closure_once\"");
                            }
                            ShimKind::FnPtr(..) => s.push_str(",\"res\":\"fnptr_shim\""),
                            ShimKind::Clone(..) => s.push_str(",\"res\":\"clone_shim\""),
                            ShimKind::DropGlue(..) => s.push_str(",\"res\":\"drop_glue\""),
                            _ => s.push_str(",\"res\":\"shim\""),
                        }
                    }
                    _ => s.push_str(",\"res\":\"extern\""),
                }
            }
        }
        s.push('}');
        s
    }

    // How a function of a collection that takes an iterator (from_iter, extend) gets its elements
    fn drained(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let n = tcx.opt_item_name(d)?.to_string();
        if n != "from_iter" && n != "extend" {
            return None;
        }
        let it = args.types().last()?;
        let into = tcx.lang_items().into_iter_fn()?;
        let next = tcx.lang_items().next_fn()?;
        let tr = tcx.trait_of_assoc(into)?;
        let assoc = tcx.associated_items(tr).in_definition_order().find(|x| x.opt_name().map(|n| n.to_string()) == Some("IntoIter".to_string()))?.def_id;
        let p = Ty::new_projection(tcx, ty::IsRigid::No, assoc, [ty::GenericArg::from(it)]);
        let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(p)).ok()?;
        let a = self.callee(into, tcx.mk_args(&[it.into()]), env);
        let b = self.callee(next, tcx.mk_args(&[t.into()]), env);
        let o = self.callee_out(next, t, env)?;
        let k = self.ty(t, env);
        Some(format!(",\"into\":{a},\"next\":{b},\"iter\":{k},\"item\":{o}"))
    }

    // The type an iterator's next returns
    fn callee_out(&mut self, next: DefId, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(next)?;
        let item = tcx.associated_items(tr).in_definition_order().find(|x| x.opt_name().map(|n| n.to_string()) == Some("Item".to_string()))?.def_id;
        let p = Ty::new_projection(tcx, ty::IsRigid::No, item, [ty::GenericArg::from(t)]);
        let x = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(p)).ok()?;
        let opt = tcx.lang_items().option_type()?;
        let o = Ty::new_adt(tcx, tcx.adt_def(opt), tcx.mk_args(&[x.into()]));
        Some(self.ty(o, env))
    }

    fn push(&mut self, key: String, w: Work<'tcx>) {
        if self.seen.insert(key.clone()) {
            self.queue.push_back((key, w));
        }
    }

    fn place(&mut self, p: &mir::Place<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                mir::ProjectionElem::Deref => "{\"k\":\"deref\"}".to_string(),
                mir::ProjectionElem::Field(f, t) => format!("{{\"k\":\"field\",\"i\":{},\"ty\":{}}}", f.index(), self.ty(t, env)),
                mir::ProjectionElem::Index(l) => format!("{{\"k\":\"index\",\"l\":{}}}", l.index()),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    format!("{{\"k\":\"cindex\",\"off\":{offset},\"min\":{min_length},\"end\":{from_end}}}"),
                mir::ProjectionElem::Subslice { from, to, from_end } =>
                    format!("{{\"k\":\"subslice\",\"from\":{from},\"to\":{to},\"end\":{from_end}}}"),
                mir::ProjectionElem::Downcast(_, v) => format!("{{\"k\":\"downcast\",\"v\":{}}}", v.index()),
                _ => "{\"k\":\"other\"}".to_string(),
            });
        }
        format!("{{\"l\":{},\"p\":[{}]}}", p.local.index(), pr.join(","))
    }

    fn const_body_ref(&mut self, u: mir::UnevaluatedConst<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(u.args);
        let (def, args) = if u.promoted.is_none() && matches!(tcx.def_kind(u.def), DefKind::AssocConst { .. }) {
            match Instance::try_resolve(tcx, env, u.def, args) {
                Ok(Some(i)) => (i.def_id(), i.args),
                _ => {
                    let a: Vec<String> = args.iter().map(|g| with_no_trimmed_paths!(format!("{g}"))).collect();
                    return format!("{{\"k\":\"assoc\",\"path\":{},\"targs\":[{}]}}", js(&self.path(u.def)), a.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
                }
            }
        } else {
            (u.def, args)
        };
        let a: Vec<String> = args.iter().filter(|g| !matches!(g.kind(), ty::GenericArgKind::Lifetime(_)))
            .map(|g| with_no_trimmed_paths!(format!("{g}"))).collect();
        let key = format!("const {}<{}>{}", self.raw_path(def), a.join(", "),
            u.promoted.map(|p| format!("[promoted {}]", p.index())).unwrap_or_default());
        if u.promoted.is_none() && let Some((v, t)) = tcx.trivial_const(def) {
            let c = mir::Const::Val(v, t);
            return self.mirconst(&c, env);
        }
        let isconst = matches!(tcx.def_kind(def), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst);
        let ok = isconst || u.promoted.is_some();
        if !ok {
            return format!("{{\"k\":\"opaque\",\"s\":{}}}", js(&key));
        }
        let name = tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or_default();
        self.push(key.clone(), Work::Const(def, args, u.promoted, env));
        format!("{{\"k\":\"body\",\"key\":{},\"name\":{}}}", js(&key), js(&name))
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        let ti = self.ty(t, env);
        match s {
            Scalar::Int(i) => {
                if matches!(t.kind(), ty::Adt(..)|ty::Tuple(..)) {
                    return format!("{{\"k\":\"scalar_adt\",\"v\":\"{}\",\"bytes\":{},\"ty\":{}}}", i.to_uint(i.size()), i.size().bytes(), ti);
                }
                format!("{{\"k\":\"int\",\"v\":\"{}\",\"ty\":{}}}", self.scalar_int(i, t), ti)
            }
            Scalar::Ptr(p, _) => {
                // reference to static memory: strings only
                let (prov, off) = p.into_raw_parts();
                if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    let m = m.inner();
                    if off.bytes() == 0 && m.provenance().ptrs().is_empty() {
                        let b = m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len());
                        let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                        return format!("{{\"k\":\"bytes\",\"v\":[{}],\"ty\":{}}}", v.join(","), ti);
                    }
                }
                if let Some(GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    let m = self.tcx.is_mutable_static(d);
                    return format!("{{\"k\":\"opaque\",\"s\":\"static\",\"path\":{},\"mut\":{},\"ty\":{}}}", js(&self.path(d)), m, ti);
                }
                format!("{{\"k\":\"opaque\",\"s\":\"ptr\",\"ty\":{}}}", ti)
            }
        }
    }

    // A constant in memory, as a tree of constants
    fn tree(&mut self, id: mir::interpret::AllocId, off: usize, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let GlobalAlloc::Memory(m) = tcx.try_get_global_alloc(id)? else { return None };
        let m = m.inner();
        let lay = tcx.layout_of(env.as_query_input(t)).ok()?;
        let size = lay.size.bytes() as usize;
        let ti = self.ty(t, env);
        let word = |o: usize, n: usize| -> Option<u128> {
            if o + n > m.len() { return None; }
            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
            let mut v: u128 = 0;
            for (i, x) in b.iter().enumerate() { v |= (*x as u128) << (8 * i); }
            Some(v)
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) => Some(format!("{{\"k\":\"int\",\"v\":\"{}\",\"ty\":{ti}}}", word(off, size)?)),
            ty::Int(_) => Some(format!("{{\"k\":\"int\",\"v\":\"{}\",\"ty\":{ti}}}", lay.size.sign_extend(word(off, size)?))),
            ty::Ref(_, inner, _) if inner.is_str() => {
                let (_, prov) = m.provenance().ptrs().iter().find(|(o, _)| o.bytes() as usize == off)?;
                let at = word(off, 8)? as usize;
                let len = word(off + 8, 8)? as usize;
                let GlobalAlloc::Memory(sm) = tcx.try_get_global_alloc(prov.alloc_id())? else { return None };
                let b = sm.inner().inspect_with_uninit_and_ptr_outside_interpreter(at..at + len);
                Some(format!("{{\"k\":\"str\",\"v\":{},\"ty\":{ti}}}", js(&String::from_utf8_lossy(b))))
            }
            ty::Array(e, _) => {
                let n = match lay.fields { rustc_abi::FieldsShape::Array { count, .. } => count, _ => return None };
                let mut f = vec![];
                for i in 0..n {
                    f.push(self.tree(id, off + lay.fields.offset(i as usize).bytes() as usize, e, env)?);
                }
                Some(format!("{{\"k\":\"tree\",\"v\":0,\"f\":[{}],\"ty\":{ti}}}", f.join(",")))
            }
            ty::Tuple(l) => {
                let mut f = vec![];
                for (i, x) in l.iter().enumerate() {
                    f.push(self.tree(id, off + lay.fields.offset(i).bytes() as usize, x, env)?);
                }
                Some(format!("{{\"k\":\"tree\",\"v\":0,\"f\":[{}],\"ty\":{ti}}}", f.join(",")))
            }
            ty::Adt(def, args) if !def.is_union() => {
                let vi = match lay.variants {
                    rustc_abi::Variants::Single { index } => index,
                    rustc_abi::Variants::Multiple { tag, ref tag_encoding, tag_field, .. } => {
                        let to = off + lay.fields.offset(tag_field.index()).bytes() as usize;
                        let ts = match tag.primitive() { rustc_abi::Primitive::Int(i, _) => i.size().bytes() as usize, _ => return None };
                        let v = word(to, ts)?;
                        match tag_encoding {
                            rustc_abi::TagEncoding::Direct => {
                                def.discriminants(tcx).find(|(_, d)| d.val & (if ts == 16 { u128::MAX } else { (1u128 << (8 * ts)) - 1 }) == v)?.0
                            }
                            rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let mask = if ts == 16 { u128::MAX } else { (1u128 << (8 * ts)) - 1 };
                                let r = v.wrapping_sub(*niche_start) & mask;
                                let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                if r <= n {
                                    rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + r as u32)
                                } else {
                                    *untagged_variant
                                }
                            }
                        }
                    }
                    _ => return None,
                };
                let cx = ty::layout::LayoutCx::new(tcx, env);
                let vl = lay.for_variant(&cx, vi);
                let mut f = vec![];
                for (i, fd) in def.variant(vi).fields.iter().enumerate() {
                    let ft = fd.ty(tcx, args);
                    let ft = tcx.try_normalize_erasing_regions(env, ft).ok()?;
                    f.push(self.tree(id, off + vl.fields.offset(i).bytes() as usize, ft, env)?);
                }
                Some(format!("{{\"k\":\"tree\",\"v\":{},\"f\":[{}],\"ty\":{ti}}}", vi.index(), f.join(",")))
            }
            _ => None,
        }
    }

    fn mirconst(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        match *c {
            mir::Const::Ty(_, k) => {
                let mut s = self.konst(k, env);
                let t = self.ty(c.ty(), env);
                s.pop();
                if !s.contains("\"ty\":") {
                    let _ = write!(s, ",\"ty\":{t}");
                }
                s.push('}');
                s
            }
            mir::Const::Unevaluated(u, t) => {
                let ti = self.ty(t, env);
                let mut s = self.const_body_ref(u, env);
                s.pop();
                let _ = write!(s, ",\"ty\":{ti}}}");
                s
            }
            mir::Const::Val(v, t) => {
                let ti = self.ty(t, env);
                match v {
                    mir::ConstValue::ZeroSized => format!("{{\"k\":\"zst\",\"ty\":{ti}}}"),
                    mir::ConstValue::Scalar(s) => self.scalar(s, t, env),
                    mir::ConstValue::Slice { alloc_id, meta } => {
                        if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                            let m = m.inner();
                            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len());
                            if let ty::Ref(_, inner, _) = t.kind() && inner.is_str() {
                                let st = String::from_utf8_lossy(&b[..meta as usize]).to_string();
                                return format!("{{\"k\":\"str\",\"v\":{},\"ty\":{ti}}}", js(&st));
                            }
                            let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            return format!("{{\"k\":\"slice\",\"v\":[{}],\"n\":{meta},\"ty\":{ti}}}", v.join(","));
                        }
                        format!("{{\"k\":\"opaque\",\"s\":\"slice\",\"ty\":{ti}}}")
                    }
                    mir::ConstValue::Indirect { alloc_id, offset } => {
                        match self.tree(alloc_id, offset.bytes() as usize, t, env) {
                            Some(s) => s,
                            None => format!("{{\"k\":\"opaque\",\"s\":\"indirect\",\"ty\":{ti}}}"),
                        }
                    }
                }
            }
        }
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!("{{\"k\":\"copy\",\"place\":{}}}", self.place(p, env)),
            mir::Operand::Move(p) => format!("{{\"k\":\"move\",\"place\":{}}}", self.place(p, env)),
            mir::Operand::Constant(c) => format!("{{\"k\":\"const\",\"c\":{}}}", self.mirconst(&c.const_, env)),
            mir::Operand::RuntimeChecks(r) => format!("{{\"k\":\"rtcheck\",\"c\":{}}}", js(&format!("{r:?}"))),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, env: TypingEnv<'tcx>, decls: &mir::Body<'tcx>) -> String {
        match r {
            mir::Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o, env)),
            mir::Rvalue::Repeat(o, n) => format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o, env), self.konst(*n, env)),
            mir::Rvalue::Ref(_, bk, p) => format!("{{\"k\":\"ref\",\"mut\":{},\"place\":{}}}", matches!(bk, mir::BorrowKind::Mut { .. }), self.place(p, env)),
            mir::Rvalue::RawPtr(k, p) => format!("{{\"k\":\"ref\",\"raw\":true,\"mut\":{},\"place\":{}}}", matches!(k, mir::RawPtrKind::Mut), self.place(p, env)),
            mir::Rvalue::Cast(k, o, t) => {
                let from = o.ty(decls, self.tcx);
                format!("{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"ty\":{},\"from\":{}}}", js(&format!("{k:?}")), self.operand(o, env), self.ty(*t, env), self.ty(from, env))
            }
            mir::Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(decls, self.tcx);
                format!("{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"ty\":{}}}", op, self.operand(&ab.0, env), self.operand(&ab.1, env), self.ty(t, env))
            }
            mir::Rvalue::UnaryOp(op, a) => {
                let t = a.ty(decls, self.tcx);
                format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"a\":{},\"ty\":{}}}", op, self.operand(a, env), self.ty(t, env))
            }
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(decls, self.tcx).ty;
                format!("{{\"k\":\"discr\",\"place\":{},\"ty\":{}}}", self.place(p, env), self.ty(t, env))
            }
            mir::Rvalue::Aggregate(k, f) => {
                let fs: Vec<String> = f.iter().map(|x| self.operand(x, env)).collect();
                let t = self.ty(r.ty(decls, self.tcx), env);
                let (kk, v) = match **k {
                    mir::AggregateKind::Array(_) => ("array", 0),
                    mir::AggregateKind::Tuple => ("tuple", 0),
                    mir::AggregateKind::Adt(_, v, ..) => ("adt", v.index()),
                    mir::AggregateKind::Closure(..) => ("closure", 0),
                    mir::AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                format!("{{\"k\":\"agg\",\"ak\":\"{kk}\",\"v\":{v},\"ty\":{t},\"f\":[{}]}}", fs.join(","))
            }
            mir::Rvalue::ThreadLocalRef(d) => format!("{{\"k\":\"other\",\"tls\":{},\"dbg\":{}}}", js(&self.path(*d)), js(&format!("{r:?}"))),
            mir::Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"place\":{}}}}}", self.place(p, env)),
            _ => format!("{{\"k\":\"other\",\"dbg\":{}}}", js(&format!("{r:?}"))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }

    fn body(&mut self, key: &str, w: Work<'tcx>) {
        let tcx = self.tcx;
        let (raw, inst, env, def, isconst): (mir::Body<'tcx>, Instance<'tcx>, TypingEnv<'tcx>, DefId, bool) = match w {
            Work::Fn(i, env) => (tcx.instance_mir(i.def).clone(), i, env, i.def.def_id(), false),
            Work::Const(d, args, p, env) => {
                let b = match p {
                    Some(p) => tcx.promoted_mir(d)[p].clone(),
                    None => tcx.mir_for_ctfe(d).clone(),
                };
                (b, Instance::new_raw(d, args), env, d, true)
            }
        };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => {
                self.bodies.insert(key.to_string(), "{\"error\":\"normalize\"}".into());
                return;
            }
        };
        let mut s = format!("{{\"path\":{},\"name\":{},\"krate\":{},\"module\":{},\"span\":{},\"args\":{},\"const\":{}", js(&self.path(def)),
            js(tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or_default().as_str()),
            js(tcx.crate_name(def.krate).as_str()), js(&self.module(def)), js(&self.line(body.span)), body.arg_count, isconst);
        if let Some(l) = body.spread_arg {
            let _ = write!(s, ",\"spread\":{}", l.index());
        }
        if tcx.is_closure_like(def) {
            let _ = write!(s, ",\"closure\":true");
        }
        let lt: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty, env).to_string()).collect();
        let _ = write!(s, ",\"locals\":[{}]", lt.join(","));
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value && p.projection.is_empty() {
                names.insert(p.local.index(), v.name.to_string());
            }
        }
        let _ = write!(s, ",\"names\":{{{}}}", names.iter().map(|(k, v)| format!("\"{k}\":{}", js(v))).collect::<Vec<_>>().join(","));
        // Constants whose evaluation is required for the function to be compiled
        let mut req = vec![];
        if let Some(cs) = &body.required_consts {
            for c in cs {
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    req.push(self.const_body_ref(u, env));
                }
            }
        }
        let _ = write!(s, ",\"required\":[{}]", req.join(","));
        let mut bbs = vec![];
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                bbs.push("null".to_string());
                continue;
            }
            let _ = bi;
            let mut st = vec![];
            for x in &bb.statements {
                let line = self.line(x.source_info.span);
                match &x.kind {
                    mir::StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        st.push(format!("{{\"k\":\"assign\",\"p\":{},\"r\":{},\"at\":{}}}", self.place(p, env), self.rvalue(r, env, &body), js(&line)));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("{{\"k\":\"setdiscr\",\"p\":{},\"v\":{},\"at\":{}}}", self.place(place, env), variant_index.index(), js(&line)));
                    }
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(o) => {
                            st.push(format!("{{\"k\":\"assume\",\"o\":{},\"at\":{}}}", self.operand(o, env), js(&line)));
                        }
                        _ => st.push(format!("{{\"k\":\"unknown\",\"at\":{}}}", js(&line))),
                    },
                    _ => (),
                }
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let term = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", target.index()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body, tcx);
                    let signed = ty.is_signed();
                    let bits = if signed { Some(tcx.layout_of(env.as_query_input(ty)).unwrap().size) } else { None };
                    let v: Vec<String> = targets.iter().map(|(v, b)| {
                        let v = match bits { Some(z) => z.sign_extend(v).to_string(), None => v.to_string() };
                        format!("[\"{}\",{}]", v, b.index())
                    }).collect();
                    format!("{{\"k\":\"switch\",\"o\":{},\"ty\":{},\"v\":[{}],\"else\":{}", self.operand(discr, env), self.ty(ty, env), v.join(","), targets.otherwise().index())
                }
                mir::TerminatorKind::Return => "{\"k\":\"return\"".to_string(),
                mir::TerminatorKind::Unreachable => "{\"k\":\"unreachable\"".to_string(),
                mir::TerminatorKind::Drop { place, target, .. } => format!("{{\"k\":\"drop\",\"place\":{},\"t\":{}", self.place(place, env), target.index()),
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body, tcx);
                    let callee = match *ft.kind() {
                        ty::FnDef(d, a) => self.callee(d, a.skip_binder(), env),
                        _ => "{\"res\":\"indirect\"}".to_string(),
                    };
                    let f = self.operand(func, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let aty: Vec<String> = args.iter().map(|x| { let t = x.node.ty(&body, tcx); self.ty(t, env).to_string() }).collect();
                    let dty = destination.ty(&body, tcx).ty;
                    format!("{{\"k\":\"call\",\"callee\":{},\"f\":{},\"args\":{},\"aty\":[{}],\"dest\":{},\"dty\":{},\"t\":{}", callee, f, arr(a), aty.join(","), self.place(destination, env), self.ty(dty, env),
                        target.map(|t| t.index().to_string()).unwrap_or("null".into()))
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    format!("{{\"k\":\"assert\",\"o\":{},\"exp\":{},\"msg\":{},\"t\":{}", self.operand(cond, env), expected, js(&m), target.index())
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", real_target.index()),
                mir::TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", real_target.index()),
                x => format!("{{\"k\":\"other\",\"dbg\":{}", js(&format!("{x:?}"))),
            };
            bbs.push(format!("{{\"s\":[{}],\"t\":{},\"at\":{}}}}}", st.join(","), term, js(&line)));
        }
        let _ = write!(s, ",\"blocks\":[{}]}}", bbs.join(","));
        self.bodies.insert(key.to_string(), s);
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut cx = Cx { tcx, types: HashMap::new(), types_out: vec![], queue: VecDeque::new(), seen: HashSet::new(), bodies: BTreeMap::new() };
        let all = std::env::var("SQV_ALL").is_ok();
        let mut roots = vec![];
        for d in tcx.hir_body_owners() {
            let d = d.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) && !(all && matches!(k, DefKind::Closure | DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::Static{..})) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                let inst = Instance::new_raw(d, args);
                let key = cx.inst_key(inst);
                let sig = if k == DefKind::Closure { None } else { Some(tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder()) };
                let vis = k != DefKind::Closure && tcx.visibility(d).is_public();
                let uns = sig.map(|s| !s.safety().is_safe()).unwrap_or(false);
                let mut gens = vec![];
                for p in args.iter() {
                    match p.kind() {
                        ty::GenericArgKind::Const(c) => {
                            if let ty::ConstKind::Param(p) = c.kind() {
                                let t = p.find_const_ty_from_env(env.param_env);
                                gens.push(format!("{{\"name\":{},\"ty\":{}}}", js(p.name.as_str()), cx.ty(t, env)));
                            }
                        }
                        _ => (),
                    }
                }
                roots.push(format!("{{\"name\":{},\"path\":{},\"key\":{},\"pub\":{},\"unsafe\":{},\"generics\":[{}],\"module\":{},\"span\":{}}}",
                    js(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str()), js(&cx.path(d)), js(&key), vis, uns, gens.join(","), js(&cx.module(d)), js(&cx.line(tcx.def_span(d)))));
                cx.push(key, Work::Fn(inst, env));
            } else {
                let a = String::new();
                let key = format!("const {}<{}>", cx.raw_path(d), a);
                cx.push(key, Work::Const(d, args, None, env));
            }
        }
        while let Some((key, w)) = cx.queue.pop_front() {
            cx.body(&key, w);
        }
        // facts about the ADTs and impls of the crate, for the structural rules
        let mut o = String::new();
        let _ = write!(o, "{{\"roots\":[{}],\n\"types\":[\n{}\n],\n\"bodies\":{{\n", roots.join(",\n"), cx.types_out.join(",\n"));
        let mut first = true;
        for (k, v) in &cx.bodies {
            if !first {
                o.push_str(",\n");
            }
            first = false;
            let _ = write!(o, "{}:{}", js(k), v);
        }
        o.push_str("\n}}\n");
        std::fs::write(&self.out, o).unwrap();
        let _ = with_forced_trimmed_paths!(0);
        rustc_driver::Compilation::Stop
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let out = std::env::var("SQV_OUT").expect("SQV_OUT");
    rustc_driver::compiler_entrypoint(&a, &mut Cb { out });
}
