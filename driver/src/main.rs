//! Dumps the resolved program (MIR per instance, types, items) of one crate as JSON.
//! Nothing of the crate is executed; constants are evaluated by the compiler's own const evaluator.
#![feature(rustc_private)]
extern crate rustc_abi;
#[allow(unused_extern_crates)]
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_index;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;


use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArg, GenericArgs, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}

// ---------------------------------------------------------------- context
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    seen: HashMap<Instance<'tcx>, String>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    bodies: Vec<J>,
    keys: HashSet<String>,
    cur_locals: Option<rustc_index::IndexVec<Local, LocalDecl<'tcx>>>,
}

const DENY: &[&str] = &[
    "std::fmt", "core::fmt", "std::panicking", "core::panicking", "std::collections", "std::alloc", "alloc::alloc",
    "std::io", "std::sys", "std::thread", "core::str", "std::str", "std::string", "alloc::string", "alloc::raw_vec", "std::hash",
    "core::unicode", "std::rt", "std::backtrace", "hashbrown", "std::sync",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::I(lo.line as i128)
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", lo.file.name.prefer_local_unconditionally())
    }
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, env: TypingEnv<'tcx>, v: ty::Unnormalized<'tcx, T>) -> Option<T> {
        self.tcx.try_normalize_erasing_regions(env, v).ok()
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        J::I(self.ty_id(t, env) as i128)
    }
    fn ty_id(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::Null);
        let tcx = self.tcx;
        let disp = with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(disp))];
        let k = |x: &str| ("k", s(x));
        match t.kind() {
            ty::Bool => o.push(k("bool")),
            ty::Char => o.push(k("char")),
            ty::Str => o.push(k("str")),
            ty::Never => o.push(k("never")),
            ty::Int(i) => {
                o.push(k("int"));
                o.push(("signed", J::B(true)));
                o.push(("bits", J::I(i.bit_width().unwrap_or(64) as i128)));
            }
            ty::Uint(i) => {
                o.push(k("int"));
                o.push(("signed", J::B(false)));
                o.push(("bits", J::I(i.bit_width().unwrap_or(64) as i128)));
            }
            ty::Float(_) => o.push(k("float")),
            ty::Adt(def, args) => {
                o.push(k("adt"));
                o.push(("path", s(self.path(def.did()))));
                o.push(("kind", s(if def.is_struct() { "struct" } else if def.is_enum() { "enum" } else { "union" })));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("transparent", J::B(def.repr().transparent())));
                o.push(("box", J::B(def.is_box())));
                let a: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|x| self.ty(x, env)).collect();
                o.push(("args", J::A(a)));
                let mut vs = vec![];
                let discrs: HashMap<_, _> = if def.is_enum() { def.discriminants(tcx).collect() } else { HashMap::new() };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = self.norm(env, ft).unwrap_or_else(|| f.ty(tcx, args).skip_norm_wip());
                        let fid = self.ty(ft, env);
                        fs.push(J::O(vec![("n", s(f.name.to_string())), ("t", fid), ("pub", s(format!("{:?}", f.vis)))]));
                    }
                    let d = match discrs.get(&vi) {
                        Some(d) => J::I(d.val as i128),
                        None => J::Null,
                    };
                    vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", d), ("f", J::A(fs))]));
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Array(e, n) => {
                o.push(k("array"));
                let e = self.ty(*e, env);
                o.push(("elem", e));
                o.push(("len", n.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null)));
            }
            ty::Slice(e) => {
                o.push(k("slice"));
                let e = self.ty(*e, env);
                o.push(("elem", e));
            }
            ty::RawPtr(e, m) => {
                o.push(k("ptr"));
                let e = self.ty(*e, env);
                o.push(("to", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                o.push(k("ref"));
                let e = self.ty(*e, env);
                o.push(("to", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Tuple(es) => {
                o.push(k("tuple"));
                let a: Vec<J> = es.iter().map(|x| self.ty(x, env)).collect();
                o.push(("elems", J::A(a)));
            }
            ty::FnDef(..) => {
                o.push(k("fndef"));
                let ty::FnDef(d, args) = t.kind() else { unreachable!() };
                let d: DefId = (*d).into();
                let args = self.tcx.erase_and_anonymize_regions(args.skip_binder());
                o.push(("path", s(self.path(d))));
                let c = self.callee(d, args, env);
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(k("fnptr")),
            ty::Dynamic(..) => {
                o.push(k("dyn"));
            }
            ty::Closure(d, args) => {
                let d: DefId = (*d).into();
                o.push(k("closure"));
                o.push(("path", s(self.path(d))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x, env)).collect();
                o.push(("upvars", J::A(ups)));
                let inst = Instance::new_raw(d, args);
                let key = self.enqueue(inst, env);
                o.push(("key", s(key)));
                o.push(("ckind", s(format!("{:?}", args.as_closure().kind()))));
            }
            ty::Param(p) => {
                o.push(k("param"));
                o.push(("name", s(p.name.to_string())));
            }
            ty::Alias(..) => o.push(k("alias")),
            _ => o.push(k("other")),
        }
        self.ty_out[id] = J::O(o);
        id
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let inst = self.tcx.erase_and_anonymize_regions(inst);
        if let Some(k) = self.seen.get(&inst) {
            return k.clone();
        }
        let base = with_no_trimmed_paths!(format!("{}", inst));
        let mut key = base.clone();
        let mut n = 1;
        while self.keys.contains(&key) {
            n += 1;
            key = format!("{}#{}", base, n);
        }
        self.keys.insert(key.clone());
        self.seen.insert(inst, key.clone());
        self.queue.push_back((inst, env));
        key
    }

    /// Describe the callee of a call to `d` with `args`.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let path = self.path(d);
        let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path.clone())), ("name", s(name)), ("local", J::B(d.is_local()))];
        let tr = tcx.trait_of_assoc(d);
        if let Some(tr) = tr {
            o.push(("trait", s(self.path(tr))));
        }
        let a: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|x| self.ty(x, env)).collect();
        o.push(("args", J::A(a)));
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.push(("kind", s("ctor")));
            if let DefKind::Ctor(..) = tcx.def_kind(d) {
                let p = tcx.parent(d);
                o.push(("variant", s(tcx.item_name(p).to_string())));
                o.push(("parent", s(self.path(p))));
            }
            return J::O(o);
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                o.push(("rpath", s(self.path(rd))));
                match inst.def {
                    InstanceKind::Item(_) => {
                        o.push(("kind", s("item")));
                        o.push(("rlocal", J::B(rd.is_local())));
                        if self.want(rd) {
                            let k = self.enqueue(inst, env);
                            o.push(("key", s(k)));
                        }
                    }
                    InstanceKind::Virtual(..) => o.push(("kind", s("virtual"))),
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => o.push(("kind", s("intrinsic"))),
                    InstanceKind::Shim(sk) => {
                        let n = format!("{:?}", sk);
                        let n = n.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                        o.push(("kind", s("shim")));
                        o.push(("shim", s(n)));
                        let mut ts = vec![];
                        for t in inst.args.types().collect::<Vec<_>>() {
                            ts.push(self.ty(t, env));
                        }
                        o.push(("rargs", J::A(ts)));
                    }
                }
            }
            _ => o.push(("kind", s("unresolved"))),
        }
        J::O(o)
    }

    fn want(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        let p = self.path(d);
        !DENY.iter().any(|x| p.starts_with(x) || p.starts_with(&format!("<{}", x)))
    }

    // ------------------------------------------------------------ constants
    fn scalar_j(&mut self, v: Scalar, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        match v {
            Scalar::Int(i) => {
                let size = i.size();
                let bits = i.to_bits(size);
                match t.kind() {
                    ty::Int(_) => J::O(vec![("int", J::I(size.sign_extend(bits)))]),
                    ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
                    ty::Uint(_) | ty::Char => J::O(vec![("int", J::I(bits as i128))]),
                    _ => J::O(vec![("int", J::I(bits as i128))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match self.tcx.global_alloc(id) {
                    GlobalAlloc::Function { instance } => {
                        let k = self.enqueue(instance, env);
                        J::O(vec![("fn", s(k))])
                    }
                    GlobalAlloc::Memory(_) => {
                        let inner = match t.kind() {
                            ty::Ref(_, x, _) => *x,
                            ty::RawPtr(x, _) => *x,
                            _ => return J::O(vec![("opaque", s("ptr"))]),
                        };
                        if !inner.is_sized(self.tcx, env) {
                            return J::O(vec![("opaque", s("fatptr"))]);
                        }
                        let v = self.read_mem(id, off.bytes(), inner, env, depth + 1);
                        J::O(vec![("ref", v)])
                    }
                    GlobalAlloc::Static(d) => {
                        let p = self.path(d);
                        J::O(vec![("static", s(p))])
                    }
                    _ => J::O(vec![("opaque", s("alloc"))]),
                }
            }
        }
    }

    fn read_int(&self, id: mir::interpret::AllocId, off: u64, size: u64) -> Option<u128> {
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { return None };
        let a = a.inner();
        if off + size > a.len() as u64 {
            return None;
        }
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + size) as usize);
        let mut v: u128 = 0;
        for (i, x) in b.iter().enumerate() {
            v |= (*x as u128) << (8 * i);
        }
        Some(v)
    }

    fn read_mem(&mut self, id: mir::interpret::AllocId, off: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let opaque = |w: &str| J::O(vec![("opaque", s(w))]);
        if depth > 12 {
            return opaque("depth");
        }
        let Ok(layout) = tcx.layout_of(env.as_query_input(t)) else { return opaque("layout") };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let Some(v) = self.read_int(id, off, layout.size.bytes()) else { return opaque("oob") };
                match t.kind() {
                    ty::Int(_) => J::O(vec![("int", J::I(layout.size.sign_extend(v)))]),
                    ty::Bool => J::O(vec![("bool", J::B(v != 0))]),
                    _ => J::O(vec![("int", J::I(v as i128))]),
                }
            }
            ty::Array(e, n) => {
                let Some(n) = n.try_to_target_usize(tcx) else { return opaque("len") };
                let Ok(el) = tcx.layout_of(env.as_query_input(*e)) else { return opaque("layout") };
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.read_mem(id, off + i * el.size.bytes(), *e, env, depth + 1));
                }
                J::O(vec![("arr", J::A(v))])
            }
            ty::Tuple(es) => {
                let mut v = vec![];
                for (i, e) in es.iter().enumerate() {
                    let o = layout.fields.offset(i).bytes();
                    v.push(self.read_mem(id, off + o, e, env, depth + 1));
                }
                J::O(vec![("fields", J::A(v)), ("variant", J::I(0))])
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let o = layout.fields.offset(i).bytes();
                    let Some(ft) = self.norm(env, f.ty(tcx, args)) else { return opaque("norm") };
                    v.push(self.read_mem(id, off + o, ft, env, depth + 1));
                }
                J::O(vec![("fields", J::A(v)), ("variant", J::I(0))])
            }
            ty::Adt(def, args) if def.is_enum() => {
                let vi = match &layout.variants {
                    rustc_abi::Variants::Single { index } => *index,
                    rustc_abi::Variants::Multiple { tag, tag_encoding: rustc_abi::TagEncoding::Direct, tag_field, .. } => {
                        let o = layout.fields.offset(tag_field.as_usize()).bytes();
                        let sz = tag.size(&tcx);
                        let Some(bits) = self.read_int(id, off + o, sz.bytes()) else { return opaque("tag") };
                        let mut r = None;
                        for (i, d) in def.discriminants(tcx) {
                            if sz.truncate(d.val) == bits {
                                r = Some(i)
                            }
                        }
                        match r {
                            Some(i) => i,
                            None => return opaque("tag"),
                        }
                    }
                    rustc_abi::Variants::Multiple { tag, tag_encoding: rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, tag_field, .. } => {
                        let o = layout.fields.offset(tag_field.as_usize()).bytes();
                        let sz = tag.size(&tcx);
                        let Some(bits) = self.read_int(id, off + o, sz.bytes()) else { return opaque("tag") };
                        let rel = sz.truncate(bits.wrapping_sub(*niche_start));
                        let n0 = niche_variants.start.as_u32() as u128;
                        let n1 = niche_variants.last.as_u32() as u128;
                        if rel <= n1 - n0 { rustc_abi::VariantIdx::from_u32((rel + n0) as u32) } else { *untagged_variant }
                    }
                    _ => return opaque("novariant"),
                };
                let cx = ty::layout::LayoutCx::new(tcx, env);
                let vl = layout.for_variant(&cx, vi);
                let mut v = vec![];
                for (i, f) in def.variant(vi).fields.iter().enumerate() {
                    let o = vl.fields.offset(i).bytes();
                    let Some(ft) = self.norm(env, f.ty(tcx, args)) else { return opaque("norm") };
                    v.push(self.read_mem(id, off + o, ft, env, depth + 1));
                }
                J::O(vec![("fields", J::A(v)), ("variant", J::I(vi.as_u32() as i128))])
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(id) else { return opaque("mem") };
                let r = a.inner().read_scalar(&tcx, AllocRange { start: rustc_abi::Size::from_bytes(off), size: tcx.data_layout.pointer_size() }, true);
                let Ok(Scalar::Ptr(p, _)) = r else { return opaque("rawptr") };
                let (prov, o2) = p.into_raw_parts();
                let pid = prov.alloc_id();
                if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
                    let Some(len) = self.read_int(id, off + 8, 8) else { return opaque("meta") };
                    return self.fat(pid, o2.bytes(), len as u64, *inner, env, depth);
                }
                if let GlobalAlloc::Memory(_) = tcx.global_alloc(pid) {
                    let v = self.read_mem(pid, o2.bytes(), *inner, env, depth + 1);
                    J::O(vec![("ref", v)])
                } else {
                    self.scalar_j(Scalar::from_pointer(p, &tcx), t, env, depth)
                }
            }
            _ => opaque("kind"),
        }
    }

    fn fat(&mut self, id: mir::interpret::AllocId, off: u64, len: u64, inner: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        if inner.is_str() {
            let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { return J::Null };
            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
            return J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]);
        }
        if let ty::Slice(e) = inner.kind() {
            let Ok(el) = self.tcx.layout_of(env.as_query_input(*e)) else { return J::Null };
            let mut v = vec![];
            for i in 0..len {
                v.push(self.read_mem(id, off + i * el.size.bytes(), *e, env, depth + 1));
            }
            return J::O(vec![("ref", J::O(vec![("arr", J::A(v))]))]);
        }
        J::O(vec![("opaque", s("fat"))])
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let tid = self.ty(t, env);
        let mut o = vec![("c", tid)];
        if matches!(t.kind(), ty::FnDef(..)) {
            return J::O(o);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                o.push(("name", s(self.path(u.def))));
            }
        }
        let v = self.const_val(c.const_, env, c.span);
        o.push(("v", v));
        J::O(o)
    }
    fn const_val(&mut self, c: mir::Const<'tcx>, env: TypingEnv<'tcx>, span: Span) -> J {
        let t = c.ty();
        if let mir::Const::Unevaluated(u, _) = c {
            if u.args.has_param() {
                // A generic constant: evaluating it may be impossible.
                if u.promoted.is_some() || self.tcx.trait_of_assoc(u.def).is_some() {
                    return J::O(vec![("opaque", s(format!("{}", with_no_trimmed_paths!(format!("{}", c)))))]);
                }
            }
        }
        match c.eval(self.tcx, env, span) {
            Ok(ConstValue::Scalar(sc)) => self.scalar_j(sc, t, env, 0),
            Ok(ConstValue::ZeroSized) => J::O(vec![("zst", J::B(true))]),
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                let inner = match t.kind() {
                    ty::Ref(_, x, _) | ty::RawPtr(x, _) => *x,
                    _ => return J::O(vec![("opaque", s("slice"))]),
                };
                self.fat(alloc_id, 0, meta, inner, env, 0)
            }
            Ok(ConstValue::Indirect { alloc_id, offset }) => self.read_mem(alloc_id, offset.bytes(), t, env, 0),
            Err(_) => J::O(vec![("opaque", s("unevaluated"))]),
        }
    }

    // ------------------------------------------------------------ bodies
    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = vec![J::I(p.local.as_u32() as i128)];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t, env);
                    J::A(vec![s("f"), J::I(f.as_u32() as i128), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), J::I(v.as_u32() as i128)]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("p", self.place(p, env))]),
            Operand::Move(p) => J::O(vec![("p", self.place(p, env)), ("m", J::B(true))]),
            Operand::Constant(c) => self.constant(c, env),
            Operand::RuntimeChecks(r) => J::O(vec![("rc", s(format!("{:?}", r)))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, env);
                J::A(vec![s("repeat"), o, n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null)])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(p, env), J::B(matches!(bk, BorrowKind::Mut { .. }))]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("ref"), self.place(p, env), J::B(format!("{:?}", k).contains("Mut")), J::B(true)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("use"), J::O(vec![("p", self.place(p, env))]), J::B(m.is_mut())]),
            Rvalue::Cast(k, o, t) => {
                let kn = format!("{:?}", k);
                let kn = kn.split('(').next().unwrap_or("").to_string();
                let detail = format!("{:?}", k);
                let from = o.ty(self.cur_locals.as_ref().unwrap(), self.tcx);
                let from = self.ty(from, env);
                let o = self.operand(o, env);
                let t = self.ty(*t, env);
                J::A(vec![s("cast"), s(kn), o, t, s(detail), from])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(self.cur_locals.as_ref().unwrap(), self.tcx);
                let t = self.ty(t, env);
                let a = self.operand(&ab.0, env);
                let b = self.operand(&ab.1, env);
                J::A(vec![s("bin"), s(format!("{:?}", op)), a, b, t])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(self.cur_locals.as_ref().unwrap(), self.tcx);
                let t = self.ty(t, env);
                let a = self.operand(a, env);
                J::A(vec![s("un"), s(format!("{:?}", op)), a, t])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p, env)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("p", self.place(p, env))])]),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|x| self.operand(x, env)).collect();
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t, env);
                        J::A(vec![s("agg"), s("array"), t, J::A(f)])
                    }
                    AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), J::Null, J::A(f)]),
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        let def = self.tcx.adt_def(*d);
                        let t = self.ty(Ty::new_adt(self.tcx, def, args), env);
                        J::A(vec![s("agg"), s("adt"), t, J::A(f), J::I(v.as_u32() as i128), fi.map(|x| J::I(x.as_u32() as i128)).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(self.tcx, (*d).into(), args), env);
                        J::A(vec![s("agg"), s("closure"), t, J::A(f)])
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t, env);
                        J::A(vec![s("agg"), s("rawptr"), t, J::A(f)])
                    }
                    _ => J::A(vec![s("agg"), s("other"), J::Null, J::A(f)]),
                }
            }
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::I(b.as_u32() as i128),
            _ => J::Null,
        }
    }
    fn term(&mut self, t: &Terminator<'tcx>, env: TypingEnv<'tcx>) -> J {
        let l = self.line(t.source_info.span);
        let b = |x: BasicBlock| J::I(x.as_u32() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), b(*target)]),
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), b(*real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), b(*real_target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(self.cur_locals.as_ref().unwrap(), self.tcx);
                let d = self.operand(discr, env);
                let tid = self.ty(ty, env);
                let vs: Vec<J> = targets
                    .iter()
                    .map(|(v, bb)| {
                        let v = match ty.kind() {
                            ty::Int(i) => rustc_abi::Size::from_bits(i.bit_width().unwrap_or(64)).sign_extend(v),
                            _ => v as i128,
                        };
                        J::A(vec![J::I(v), b(bb)])
                    })
                    .collect();
                J::A(vec![s("switch"), d, tid, J::A(vs), b(targets.otherwise()), l])
            }
            TerminatorKind::Return => J::A(vec![s("ret")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
            TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(self.cur_locals.as_ref().unwrap(), self.tcx).ty;
                let tid = self.ty(ty, env);
                let p = self.place(place, env);
                J::A(vec![s("drop"), p, b(*target), tid])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(cond, env);
                let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![len, index]),
                    AssertKind::Overflow(op, a, c) => (format!("Overflow({:?})", op), vec![a, c]),
                    AssertKind::OverflowNeg(a) => ("OverflowNeg".into(), vec![a]),
                    AssertKind::DivisionByZero(a) => ("DivisionByZero".into(), vec![a]),
                    AssertKind::RemainderByZero(a) => ("RemainderByZero".into(), vec![a]),
                    x => (format!("{:?}", x).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(), vec![]),
                };
                let ops: Vec<J> = ops.into_iter().map(|o| self.operand(o, env)).collect();
                J::A(vec![s("assert"), c, J::B(*expected), s(k), J::A(ops), b(*target), l])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let fty = func.ty(self.cur_locals.as_ref().unwrap(), self.tcx);
                let callee = match fty.kind() {
                    ty::FnDef(d, a) => {
                        let d: DefId = (*d).into();
                        let a = self.tcx.erase_and_anonymize_regions(a.skip_binder());
                        self.callee(d, a, env)
                    }
                    _ => {
                        let f = self.operand(func, env);
                        J::O(vec![("kind", s("ptr")), ("path", s("")), ("name", s("")), ("op", f)])
                    }
                };
                let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                let at: Vec<J> = args
                    .iter()
                    .map(|x| {
                        let t = x.node.ty(self.cur_locals.as_ref().unwrap(), self.tcx);
                        self.ty(t, env)
                    })
                    .collect();
                let d = self.place(destination, env);
                let dt = destination.ty(self.cur_locals.as_ref().unwrap(), self.tcx).ty;
                let dt = self.ty(dt, env);
                let u = self.unwind(unwind);
                J::A(vec![s("call"), callee, J::A(a), d, target.map(b).unwrap_or(J::Null), l, J::A(at), dt, u])
            }
            k => J::A(vec![s("other"), s(format!("{:?}", k))]),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let key = self.seen[&inst].clone();
        let def = inst.def_id();
        if !tcx.is_mir_available(def) {
            return;
        }
        if let InstanceKind::Item(_) = inst.def {
        } else {
            return;
        }
        let raw = tcx.instance_mir(inst.def);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => raw.clone(),
        };
        self.cur_locals = Some(body.local_decls.clone());
        let mut names: HashMap<u32, String> = HashMap::new();
        let mut upv = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                } else {
                    let pj = self.place(p, env);
                    upv.push(J::A(vec![s(v.name.to_string()), pj]));
                }
            }
        }
        let mut locals = vec![];
        for (i, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty, env);
            locals.push(J::A(vec![t, names.get(&i.as_u32()).map(|x| s(x.clone())).unwrap_or(J::Null)]));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let l = self.line(x.source_info.span);
                        let p = self.place(&a.0, env);
                        let r = self.rvalue(&a.1, env);
                        st.push(J::A(vec![s("="), p, r, l]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, env);
                        st.push(J::A(vec![s("setd"), p, J::I(variant_index.as_u32() as i128)]));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(&c.src, env);
                            let b = self.operand(&c.dst, env);
                            let n = self.operand(&c.count, env);
                            st.push(J::A(vec![s("cno"), a, b, n]));
                        }
                        NonDivergingIntrinsic::Assume(_) => {}
                    },
                    _ => {}
                }
            }
            let mut t = self.term(bb.terminator(), env);
            if let (J::A(v), TerminatorKind::SwitchInt { .. }) = (&mut t, &bb.terminator().kind) {
                // a test of cfg!(..): the literal it became carries the expansion
                let mut sp = vec![bb.terminator().source_info.span];
                sp.extend(bb.statements.iter().filter(|x| matches!(x.kind, StatementKind::Assign(..))).last().map(|x| x.source_info.span));
                let cfg = sp.iter().any(|x| x.macro_backtrace().any(|e| e.macro_def_id.is_some_and(|d| matches!(self.tcx.item_name(d).as_str(), "cfg" | "debug_assert" | "debug_assert_eq" | "debug_assert_ne"))));
                v.push(J::B(cfg));
            }
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("c", J::B(bb.is_cleanup))]));
        }
        let sp = tcx.def_span(def);
        let mut o = vec![
            ("key", s(key)),
            ("path", s(self.path(def))),
            ("name", s(tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or_default())),
            ("local", J::B(def.is_local())),
            ("file", s(self.file(sp))),
            ("line", self.line(sp)),
            ("argc", J::I(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|x| J::I(x.as_u32() as i128)).unwrap_or(J::Null)),
            ("generic", J::B(inst.args.has_param())),
            ("dk", s(format!("{:?}", tcx.def_kind(def)))),
            ("locals", J::A(locals)),
            ("upvars", J::A(upv)),
            ("blocks", J::A(blocks)),
        ];
        let a: Vec<J> = inst.args.types().collect::<Vec<_>>().into_iter().map(|x| self.ty(x, env)).collect();
        o.push(("targs", J::A(a)));
        let mut p = def;
        if matches!(tcx.def_kind(def), DefKind::Closure) {
            p = tcx.typeck_root_def_id(def);
            o.push(("root", s(self.path(p))));
        }
        if let Some(im) = tcx.impl_of_assoc(p) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st, TypingEnv::post_analysis(tcx, im));
            o.push(("impl_self", st));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                o.push(("impl_trait", s(self.path(tr.skip_binder().def_id))));
            }
            o.push(("derived", J::B(self.is_derived(im))));
        } else if let Some(tr) = tcx.trait_of_assoc(p) {
            o.push(("def_trait", s(self.path(tr))));
        }
        self.bodies.push(J::O(o));
    }
    fn is_derived(&self, im: DefId) -> bool {
        let sp = self.tcx.def_span(im);
        sp.from_expansion()
    }
}

/// The lifetimes in a type, each with the kind of thing it is a parameter of.
fn regions<'tcx>(t: Ty<'tcx>) -> J {
    let mut out = vec![];
    for a in t.walk() {
        if let Some(t) = a.as_type() {
            match t.kind() {
                ty::Ref(r, to, m) => out.push(J::A(vec![s(format!("{:?}", r)), s(if m.is_mut() { "&mut" } else { "&" }), s(format!("{}", to))])),
                ty::Adt(d, args) => {
                    for r in args.regions() {
                        out.push(J::A(vec![s(format!("{:?}", r)), s("adt"), s(format!("{}", d.did().krate == LOCAL_CRATE).replace("true", "local:") + &with_no_trimmed_paths!(format!("{:?}", d)))]));
                    }
                }
                _ => {}
            }
        }
    }
    J::A(out)
}

// ---------------------------------------------------------------- roots and items
fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        seen: HashMap::new(),
        queue: VecDeque::new(),
        bodies: vec![],
        keys: HashSet::new(),
        cur_locals: None,
    };
    let mono = TypingEnv::fully_monomorphized();
    let ev = tcx.effective_visibilities(());
    let mut fns = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut consts = vec![];
    let mut statics = vec![];
    let mut aliases: Vec<(String, Ty<'tcx>)> = vec![];
    let mut local_fns: Vec<DefId> = vec![];
    let mut local_traits: Vec<DefId> = vec![];
    let mut cand: Vec<Ty<'tcx>> = vec![tcx.types.u8];

    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let env = TypingEnv::post_analysis(tcx, d);
                let ins: Vec<J> = sig.inputs().iter().map(|x| cx.ty(*x, env)).collect();
                let outp = cx.ty(sig.output(), env);
                let mut o = vec![
                    ("path", s(cx.path(d))),
                    ("name", s(tcx.item_name(d).to_string())),
                    ("exported", J::B(ev.is_exported(ld))),
                    ("unsafe", J::B(sig.safety().is_unsafe())),
                    ("ins", J::A(ins)),
                    ("out", outp),
                    ("file", s(cx.file(tcx.def_span(d)))),
                    ("line", cx.line(tcx.def_span(d))),
                    ("body", J::B(tcx.is_mir_available(d))),
                    ("rin", J::A(sig.inputs().iter().map(|x| regions(*x)).collect())),
                    ("rout", regions(sig.output())),
                ];
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", cx.ty(st, TypingEnv::post_analysis(tcx, im))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        o.push(("impl_trait", s(cx.path(tr.skip_binder().def_id))));
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.push(("def_trait", s(cx.path(tr))));
                }
                fns.push(J::O(o));
                local_fns.push(d);
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let env = TypingEnv::post_analysis(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(t, env);
                if !tcx.generics_of(d).requires_monomorphization(tcx) {
                    cand.push(tcx.erase_and_anonymize_regions(t));
                }
                adts.push(J::O(vec![("path", s(cx.path(d))), ("ty", tid), ("exported", J::B(ev.is_exported(ld))), ("file", s(cx.file(tcx.def_span(d)))), ("line", cx.line(tcx.def_span(d)))]));
            }
            DefKind::Impl { of_trait } => {
                let env = TypingEnv::post_analysis(tcx, d);
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let sid = cx.ty(st, env);
                let mut o = vec![("self", sid), ("file", s(cx.file(tcx.def_span(d)))), ("derived", J::B(cx.is_derived(d)))];
                if of_trait {
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        o.push(("trait", s(cx.path(tr.skip_binder().def_id))));
                    }
                }
                let items: Vec<J> = tcx.associated_item_def_ids(d).iter().map(|x| s(tcx.opt_item_name(*x).map(|n| n.to_string()).unwrap_or_default())).collect();
                o.push(("items", J::A(items)));
                impls.push(J::O(o));
            }
            DefKind::Trait => local_traits.push(d),
            DefKind::TyAlias => {
                if !tcx.generics_of(d).requires_monomorphization(tcx) {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    if let Some(t) = cx.norm(mono, ty::Unnormalized::new_wip(t)) {
                        aliases.push((cx.path(d), t));
                        cand.push(t);
                    }
                }
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                statics.push(J::O(vec![
                    ("path", s(cx.path(d))),
                    ("mut", J::B(mutability.is_mut())),
                    ("freeze", J::B(t.is_freeze(tcx, mono))),
                    ("t", s(with_no_trimmed_paths!(format!("{}", t)))),
                    ("file", s(cx.file(tcx.def_span(d)))),
                    ("line", cx.line(tcx.def_span(d))),
                ]));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if !tcx.generics_of(d).requires_monomorphization(tcx) && !tcx.generics_of(d).has_self {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let tid = cx.ty(t, mono);
                        let v = cx.const_val(mir::Const::Val(v, t), mono, tcx.def_span(d));
                        consts.push(J::O(vec![("path", s(cx.path(d))), ("t", tid), ("v", v)]));
                    }
                }
            }
            _ => {}
        }
    }
    let mut c2: Vec<Ty<'tcx>> = vec![];
    for t in cand {
        if !c2.contains(&t) {
            c2.push(t);
        }
    }
    let cand = c2;

    // Roots: every local function with identity arguments, then with every single-type substitution
    // by a candidate type that satisfies its predicates, then the methods of the aliased types.
    let mut roots = vec![];
    for d in local_fns.iter().copied() {
        if !tcx.is_mir_available(d) {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        let id = GenericArgs::identity_for_item(tcx, d);
        let id = tcx.erase_and_anonymize_regions(id);
        let key = cx.enqueue(Instance::new_raw(d, id), if id.has_param() { env } else { mono });
        roots.push(s(key));
        let ntypes = tcx.generics_of(d).own_counts().types + tcx.generics_of(d).parent.map(|p| tcx.generics_of(p).own_counts().types).unwrap_or(0);
        if ntypes == 1 {
            for c in cand.iter() {
                let args = GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    ty::GenericParamDefKind::Type { .. } => GenericArg::from(*c),
                    _ => tcx.mk_param_from_def(p),
                });
                if args.has_param() {
                    continue;
                }
                if tcx.instantiate_and_check_impossible_clauses((d, args)) {
                    continue;
                }
                // Only keep candidates that satisfy the where clauses of the enclosing item.
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, mono, d, args) {
                    if let InstanceKind::Item(x) = inst.def {
                        if x.is_local() && tcx.is_mir_available(x) {
                            let key = cx.enqueue(inst, mono);
                            roots.push(s(key));
                        }
                    }
                }
            }
        }
    }
    for (_, t) in aliases.clone() {
        if let ty::Adt(def, args) = t.kind() {
            if !def.did().is_local() || args.has_param() {
                continue;
            }
            for im in tcx.inherent_impls(def.did()).iter() {
                for it in tcx.associated_item_def_ids(*im).iter().copied() {
                    if tcx.def_kind(it) == DefKind::AssocFn && tcx.is_mir_available(it) {
                        // Unify the impl self type with `t` by position (all impls here are on the plain type).
                        let st = tcx.type_of(*im).instantiate_identity().skip_norm_wip();
                        if let ty::Adt(_, iargs) = st.kind() {
                            let mut m: HashMap<u32, GenericArg<'tcx>> = HashMap::new();
                            for (a, b) in iargs.iter().zip(args.iter()) {
                                if let Some(at) = a.as_type() {
                                    if let ty::Param(p) = at.kind() {
                                        m.insert(p.index, b);
                                    }
                                }
                            }
                            let g = tcx.generics_of(it);
                            if g.own_counts().types > 0 {
                                continue;
                            }
                            let ok = (0..g.count()).all(|i| {
                                let p = g.param_at(i, tcx);
                                !matches!(p.kind, ty::GenericParamDefKind::Type { .. }) || m.contains_key(&p.index)
                            });
                            if !ok {
                                continue;
                            }
                            let fa = GenericArgs::for_item(tcx, it, |p, _| match p.kind {
                                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                                _ => m[&p.index],
                            });
                            if tcx.instantiate_and_check_impossible_clauses((it, fa)) {
                                continue;
                            }
                            let key = cx.enqueue(Instance::new_raw(it, fa), mono);
                            roots.push(s(key));
                        }
                    }
                }
            }
        }
    }
    let mut al = vec![];
    for (p, t) in aliases.iter() {
        al.push(J::O(vec![("path", s(p.clone())), ("ty", cx.ty(*t, mono))]));
    }
    while let Some((inst, env)) = cx.queue.pop_front() {
        cx.body(inst, env);
    }
    let _ = local_traits;
    let o = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("types", J::A(cx.ty_out.clone())),
        ("bodies", J::A(cx.bodies.clone())),
        ("roots", J::A(roots)),
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("consts", J::A(consts)),
        ("statics", J::A(statics)),
        ("aliases", J::A(al)),
    ]);
    let mut t = String::new();
    o.w(&mut t);
    std::fs::write(out, t).expect("cannot write dump");
}

struct Cb {
    out: String,
}
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        dump(tcx, &self.out);
        rustc_driver_impl::Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    args[0] = "rustc".into();
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
}
