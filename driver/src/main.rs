// A rustc driver that compiles the crate it is given and, once analysis is over, writes the MIR
// of every function of the crate (and of what those functions call, as far as bodies exist) to a
// JSON file. It only reads the compiler's tables; it never runs the code it is given.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::interpret::Scalar;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Option<String>>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(String, Instance<'tcx>, DefId)>,
    seen: HashSet<String>,
    out: Vec<String>,
    env: TypingEnv<'tcx>,
    root: DefId,
    iterator_next: Option<DefId>,
    iterator_trait: Option<DefId>,
    de_trait: Option<DefId>,
    de_next_back: Option<DefId>,
    display_trait: Option<DefId>,
    display_fmt: Option<DefId>,
    local_impl_methods: Vec<String>,
}

const EXTERNAL_BODIES: &[&str] = &[
    "core::option::", "core::result::", "core::cmp::", "core::convert::", "core::ops::", "core::clone::",
    "core::iter::", "core::bool::", "core::default::", "core::tuple::", "core::borrow::", "alloc::borrow::",
    "core::array::", "core::mem::",
    "std::option::", "std::result::", "std::cmp::", "std::convert::", "std::ops::", "std::clone::",
    "std::iter::", "std::bool::", "std::default::", "std::tuple::", "std::borrow::", "std::array::", "std::mem::",
];

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn raw_path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(None);
        self.type_ids.insert(t, id);
        let s = with_no_trimmed_paths!(format!("{}", t));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Adt(def, args) => {
                let path = self.path(def.did());
                let targs: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
                let local = def.did().is_local();
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = Vec::new();
                let expand = local
                    || path.starts_with("std::option::")
                    || path.starts_with("std::result::")
                    || path.starts_with("std::ops::")
                    || path.starts_with("std::cmp::")
                    || path.starts_with("std::borrow::Cow")
                    || path.starts_with("std::iter::");
                let discrs: Vec<u128> = if def.is_enum() {
                    def.discriminants(tcx).map(|(_, d)| d.val).collect()
                } else {
                    vec![0]
                };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let vis = if f.vis.is_public() { "true" } else { "false" };
                        let fty = if expand {
                            let ft = tcx.try_normalize_erasing_regions(self.env, f.ty(tcx, args)).unwrap_or(f.ty(tcx, args).skip_norm_wip());
                            self.ty(ft).to_string()
                        } else {
                            "null".to_string()
                        };
                        fs.push(format!("[{},{},{}]", esc(f.name.as_str()), fty, vis));
                    }
                    let d = discrs.get(vi.as_usize()).copied().unwrap_or(0);
                    vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}", esc(v.name.as_str()), d, arr(fs)));
                }
                format!(
                    "\"k\":\"adt\",\"path\":{},\"kind\":\"{}\",\"local\":{},\"box\":{},\"args\":{},\"variants\":{}",
                    esc(&path), kind, local, def.is_box(), arr(targs), arr(vs)
                )
            }
            ty::Ref(_, inner, m) => {
                format!("\"k\":\"ref\",\"mut\":{},\"ty\":{}", m.is_mut(), self.ty(*inner))
            }
            ty::RawPtr(inner, m) => format!("\"k\":\"ptr\",\"mut\":{},\"ty\":{}", m.is_mut(), self.ty(*inner)),
            ty::Slice(inner) => format!("\"k\":\"slice\",\"ty\":{}", self.ty(*inner)),
            ty::Array(inner, n) => {
                let len = n.try_to_target_usize(tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"ty\":{},\"len\":{}", self.ty(*inner), len)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|a| self.ty(a).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":{}", arr(v))
            }
            ty::FnDef(def, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let callee = self.callee(*def, args);
                let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(*def).instantiate(tcx, args).skip_norm_wip());
                let norm = |t: Ty<'tcx>| tcx.try_normalize_erasing_regions(self.env, rustc_middle::ty::Unnormalized::new_wip(t)).unwrap_or(t);
                let tys: Vec<Ty<'tcx>> = sig.inputs_and_output.iter().map(norm).collect();
                let ids: Vec<String> = tys.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("\"k\":\"fndef\",\"sig\":{},{}", arr(ids), callee)
            }
            ty::Closure(def, args) => {
                let key = self.closure_key(*def, args);
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|a| self.ty(a).to_string()).collect();
                format!("\"k\":\"closure\",\"inst\":{},\"upvars\":{}", key, arr(up))
            }
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"trait\":{}", esc(&p))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[id] = Some(format!("{{\"s\":{},{}}}", esc(&s), body));
        id
    }

    fn inst_key(&self, i: &Instance<'tcx>) -> String {
        let s = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args));
        format!("{}#{}", s, self.raw_path(i.def_id()))
    }

    fn has_body(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        if d.is_local() {
            return tcx.is_mir_available(d);
        }
        if !tcx.is_mir_available(d) {
            return false;
        }
        let p = self.raw_path(d);
        if EXTERNAL_BODIES.iter().any(|x| p.starts_with(x)) {
            return true;
        }
        // closures of bodies we have
        false
    }

    fn enqueue(&mut self, i: Instance<'tcx>) -> Option<String> {
        if !matches!(i.def, InstanceKind::Item(_)) {
            return None;
        }
        if !self.has_body(i.def_id()) {
            return None;
        }
        let key = self.inst_key(&i);
        if self.seen.insert(key.clone()) {
            self.queue.push_back((key.clone(), i, self.root));
        }
        Some(key)
    }

    fn closure_key(&mut self, def: DefId, args: GenericArgsRef<'tcx>) -> String {
        let kind = args.as_closure().kind();
        let i = Instance::resolve_closure(self.tcx, def, args, kind);
        // whichever adapter this resolves to, what we want is the closure's own body
        let i = Instance { def: InstanceKind::Item(def), args: i.args };
        let i = Instance { def: i.def, args };
        match self.enqueue(i) {
            Some(k) => esc(&k),
            None => "null".to_string(),
        }
    }

    fn implements(&self, t: Ty<'tcx>, tr: DefId) -> bool {
        if t.has_escaping_bound_vars() || t.has_infer() {
            return false;
        }
        let (infcx, penv) = self.tcx.infer_ctxt().build_with_typing_env(self.env);
        infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()
    }

    fn want_method(&mut self, t: Ty<'tcx>, tr: Option<DefId>, m: Option<DefId>) {
        let (Some(tr), Some(m)) = (tr, m) else { return };
        if matches!(t.kind(), ty::Param(_) | ty::Alias(..) | ty::Dynamic(..) | ty::Never) {
            return;
        }
        if !self.implements(t, tr) {
            return;
        }
        let tcx = self.tcx;
        let args = tcx.mk_args(&[t.into()]);
        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, m, args) {
            if let InstanceKind::Item(d) = i.def {
                let k = self.enqueue(i);
                if let Some(k) = k {
                    let tid = self.ty(t);
                    let name = self.path(m);
                    let _ = d;
                    self.local_impl_methods.push(format!("[{},{},{}]", tid, esc(&name), esc(&k)));
                }
            }
        }
    }

    fn callee(&mut self, def: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let name = self.path(def);
        let mut fields = vec![
            format!("\"name\":{}", esc(&name)),
            format!("\"raw\":{}", esc(&self.raw_path(def))),
            format!("\"local\":{}", def.is_local()),
        ];
        let targs: Vec<Ty<'tcx>> = args.types().collect();
        let ids: Vec<String> = targs.iter().map(|a| self.ty(*a).to_string()).collect();
        fields.push(format!("\"args\":{}", arr(ids)));
        if let Some(tr) = tcx.trait_of_assoc(def) {
            fields.push(format!("\"trait\":{}", esc(&self.path(tr))));
            fields.push(format!("\"method\":{}", esc(tcx.item_name(def).as_str())));
        }
        if matches!(tcx.def_kind(def), DefKind::Ctor(..)) {
            fields.push("\"kind\":\"ctor\"".into());
            let parent = tcx.parent(def);
            let (adt, vi) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.adt_def(tcx.parent(parent));
                    (adt, adt.variant_index_with_id(parent).as_usize())
                }
                _ => (tcx.adt_def(parent), 0),
            };
            let ret = tcx.fn_sig(def).instantiate(tcx, args).skip_norm_wip().skip_binder().output();
            let _ = adt;
            fields.push(format!("\"variant\":{},\"ret\":{}", vi, self.ty(ret)));
            return fields.join(",");
        }
        let res = Instance::try_resolve(tcx, self.env, def, args);
        match res {
            Ok(Some(i)) => match i.def {
                InstanceKind::Item(d) => {
                    fields.push("\"kind\":\"item\"".into());
                    fields.push(format!("\"impl\":{}", esc(&self.path(d))));
                    fields.push(format!("\"impl_local\":{}", d.is_local()));
                    if let Some(k) = self.enqueue(i) {
                        fields.push(format!("\"inst\":{}", esc(&k)));
                    }
                }
                InstanceKind::Virtual(d, _) => {
                    fields.push("\"kind\":\"virtual\"".into());
                    fields.push(format!("\"impl\":{}", esc(&self.path(d))));
                }
                InstanceKind::Intrinsic(_) => fields.push("\"kind\":\"intrinsic\"".into()),
                InstanceKind::LlvmIntrinsic(_) => fields.push("\"kind\":\"intrinsic\"".into()),
                InstanceKind::Shim(_) => fields.push("\"kind\":\"shim\"".into()),
            },
            _ => fields.push("\"kind\":\"unresolved\"".into()),
        }
        // iterator types that are passed around generically are advanced by whoever receives them
        for t in targs {
            let (it, nx, de, nb, di, fm) = (
                self.iterator_trait, self.iterator_next, self.de_trait, self.de_next_back,
                self.display_trait, self.display_fmt,
            );
            self.want_method(t, it, nx);
            self.want_method(t, de, nb);
            if let ty::Adt(d, _) = t.kind() {
                if d.did().is_local() {
                    self.want_method(t, di, fm);
                }
            }
        }
        fields.join(",")
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        format!("{}:{}", f, l.line)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("[\"v\",{}]", vi.as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        arr(v)
    }

    fn bytes_of(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return format!("{{\"o\":\"k\",\"c\":\"zst\",\"t\":{}}}", tid);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let i = Instance { def: InstanceKind::Item(u.def), args: u.args };
                let k = self.inst_key(&i);
                return format!("{{\"o\":\"k\",\"c\":\"promoted\",\"inst\":{},\"p\":{},\"t\":{}}}", esc(&k), p.as_usize(), tid);
            }
        }
        let val = c.const_.eval(tcx, self.env, c.span);
        let head = format!("\"o\":\"k\",\"t\":{}", tid);
        match val {
            Ok(v) => match v {
                ConstValue::ZeroSized => format!("{{{},\"c\":\"zst\"}}", head),
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size());
                    let val = match t.kind() {
                        ty::Int(_) => {
                            let sz = i.size();
                            sz.sign_extend(bits).to_string()
                        }
                        _ => bits.to_string(),
                    };
                    format!("{{{},\"c\":\"int\",\"v\":\"{}\"}}", head, val)
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    // a reference to a constant: try bytes/array/str
                    let (prov, off) = p.into_raw_parts();
                    let id = prov.alloc_id();
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if let ty::Array(e, n) = inner.kind() {
                            if let (ty::Uint(ty::UintTy::U8), Some(n)) = (e.kind(), n.try_to_target_usize(tcx)) {
                                if let Some(b) = self.bytes_of(id, off.bytes() as usize, n as usize) {
                                    return format!("{{{},\"c\":\"bytes\",\"v\":{}}}", head, arr(b.iter().map(|x| x.to_string())));
                                }
                            }
                        }
                    }
                    format!("{{{},\"c\":\"ptr\"}}", head)
                }
                ConstValue::Slice { alloc_id, meta } => {
                    let b = self.bytes_of(alloc_id, 0, meta as usize).unwrap_or_default();
                    match t.kind() {
                        ty::Ref(_, inner, _) if inner.is_str() => {
                            format!("{{{},\"c\":\"str\",\"v\":{}}}", head, esc(&String::from_utf8_lossy(&b)))
                        }
                        _ => format!("{{{},\"c\":\"bytes\",\"v\":{}}}", head, arr(b.iter().map(|x| x.to_string()))),
                    }
                }
                ConstValue::Indirect { .. } => {
                    // an aggregate constant: describe it by what the compiler would print
                    let mut extra = String::new();
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<String> = d
                            .fields
                            .iter()
                            .map(|(cv, ft)| {
                                let co = ConstOperand { span: c.span, user_ty: None, const_: Const::Val(*cv, *ft) };
                                self.constant(&co)
                            })
                            .collect();
                        extra = format!(",\"variant\":{},\"fields\":{}", d.variant.map(|v| v.as_usize()).unwrap_or(0), arr(fs));
                    }
                    format!("{{{},\"c\":\"agg\"{}}}", head, extra)
                }
            },
            Err(_) => {
                let s = with_no_trimmed_paths!(format!("{}", c.const_));
                format!("{{{},\"c\":\"generic\",\"s\":{}}}", head, esc(&s))
            }
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"c\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"m\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(_) => {
                let t = self.ty(self.tcx.types.bool);
                format!("{{\"o\":\"k\",\"c\":\"int\",\"v\":\"0\",\"t\":{}}}", t)
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let len = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.operand(o), len)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", m, self.place(p))
            }
            Rvalue::RawPtr(k, p) => format!("{{\"r\":\"addr\",\"k\":\"{:?}\",\"p\":{}}}", k, self.place(p)),
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"r\":\"reborrow\",\"mut\":{},\"p\":{}}}", m.is_mut(), self.place(p))
            }
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                let from = o.ty(&body.local_decls, self.tcx);
                let from = self.ty(from);
                format!("{{\"r\":\"cast\",\"k\":{},\"a\":{},\"t\":{},\"from\":{}}}", esc(&ks), self.operand(o), self.ty(*t), from)
            }
            Rvalue::BinaryOp(op, ab) => {
                let (a, b) = &**ab;
                let t = a.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"t\":{}}}", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::UnaryOp(op, a) => {
                format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(a))
            }
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"c\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<String> = fs.iter().map(|o| self.operand(o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(t) => format!("\"k\":\"array\",\"t\":{}", self.ty(*t)),
                    AggregateKind::Tuple => "\"k\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        format!("\"k\":\"adt\",\"t\":{},\"v\":{},\"uf\":{}", t, v.as_usize(), f.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        format!("\"k\":\"closure\",\"t\":{}", self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => "\"k\":\"rawptr\"".to_string(),
                    _ => "\"k\":\"other\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{},\"ops\":{}}}", kind, arr(ops))
            }
            _ => "{\"r\":\"other\"}".to_string(),
        }
    }

    fn body(&mut self, body: &Body<'tcx>) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = Vec::new();
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names.get(&l.as_usize()).map(|s| esc(s)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", t, n));
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let rv = self.rvalue(r, body);
                        st.push(format!("[\"=\",{},{},{}]", self.place(p), rv, esc(&self.span(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => st.push(format!("[\"assume\",{}]", self.operand(o))),
                        _ => st.push("[\"intrinsic\"]".to_string()),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!(
                        "{{\"t\":\"switch\",\"d\":{},\"dt\":{},\"cases\":{},\"else\":{},\"sp\":{}}}",
                        self.operand(discr), dt, arr(v), targets.otherwise().as_usize(), sp
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".to_string(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    let pt = self.ty(pt);
                    format!("{{\"t\":\"drop\",\"p\":{},\"pt\":{},\"to\":{},\"sp\":{}}}", self.place(place), pt, target.as_usize(), sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, self.tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let rt = destination.ty(&body.local_decls, self.tcx).ty;
                    let rt = self.ty(rt);
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"args\":{},\"at\":{},\"dest\":{},\"rt\":{},\"to\":{},\"sp\":{}}}",
                        f, arr(a), arr(at), self.place(destination), rt,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(..) => "divzero".to_string(),
                        AssertKind::RemainderByZero(..) => "remzero".to_string(),
                        _ => "other".to_string(),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"to\":{},\"sp\":{}}}",
                        self.operand(cond), expected, esc(&m), target.as_usize(), sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"t\":\"resume\"}".to_string(),
                _ => "{\"t\":\"other\"}".to_string(),
            };
            blocks.push(format!("{{\"cleanup\":{},\"st\":{},\"term\":{}}}", bb.is_cleanup, arr(st), term));
        }
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":{},\"blocks\":{}",
            body.arg_count,
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            arr(locals),
            arr(blocks)
        )
    }

    fn instance(&mut self, key: String, i: Instance<'tcx>, root: DefId, is_root: bool) {
        let tcx = self.tcx;
        self.root = root;
        self.env = TypingEnv::post_analysis(tcx, root);
        let d = i.def_id();
        let raw = tcx.instance_mir(i.def);
        let mono = |b: &Body<'tcx>, env: TypingEnv<'tcx>| -> Option<Body<'tcx>> {
            i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone())).ok()
        };
        let Some(b) = mono(raw, self.env) else { return };
        let bj = self.body(&b);
        let mut proms = Vec::new();
        for p in tcx.promoted_mir(d).iter() {
            if let Some(pb) = mono(p, self.env) {
                proms.push(format!("{{{}}}", self.body(&pb)));
            }
        }
        let mut meta = vec![
            format!("\"key\":{}", esc(&key)),
            format!("\"name\":{}", esc(&self.path(d))),
            format!("\"raw\":{}", esc(&self.raw_path(d))),
            format!("\"local\":{}", d.is_local()),
            format!("\"root\":{}", is_root),
            format!("\"span\":{}", esc(&self.span(tcx.def_span(d)))),
        ];
        if !tcx.is_closure_like(d) && tcx.def_kind(d).is_fn_like() {
            meta.push(format!("\"pub\":{}", tcx.visibility(d).is_public()));
            if d.is_local() {
                let eff = tcx.effective_visibilities(()).is_reachable(d.expect_local());
                meta.push(format!("\"reachable\":{}", eff));
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let sid = self.ty(st);
                meta.push(format!("\"impl_self\":{}", sid));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let td = tr.instantiate_identity().skip_norm_wip().def_id;
                    meta.push(format!("\"impl_trait\":{}", esc(&self.path(td))));
                }
            }
            meta.push(format!("\"item\":{}", esc(tcx.item_name(d).as_str())));
        }
        self.out.push(format!("{{{},{},\"promoted\":{}}}", meta.join(","), bj, arr(proms)));
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut roots: Vec<DefId> = Vec::new();
        for l in tcx.mir_keys(()) {
            let d = l.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                roots.push(d);
            }
        }
        roots.sort_by_key(|d| tcx.def_path(*d).to_string_no_crate_verbose());
        if roots.is_empty() {
            return Compilation::Continue;
        }
        let iterator_trait = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Iterator"));
        let find = |tr: Option<DefId>, m: &str| -> Option<DefId> {
            let tr = tr?;
            tcx.associated_items(tr).in_definition_order().find(|i| i.is_fn() && i.name().as_str() == m).map(|i| i.def_id)
        };
        let de_trait = tcx.get_diagnostic_item(rustc_span::Symbol::intern("DoubleEndedIterator"));
        let display_trait = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Display"));
        let mut dd = Dumper {
            tcx,
            types: Vec::new(),
            type_ids: HashMap::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
            out: Vec::new(),
            env: TypingEnv::post_analysis(tcx, roots[0]),
            root: roots[0],
            iterator_next: find(iterator_trait, "next"),
            iterator_trait,
            de_next_back: find(de_trait, "next_back"),
            de_trait,
            display_fmt: find(display_trait, "fmt"),
            display_trait,
            local_impl_methods: Vec::new(),
        };
        for r in &roots {
            let args = ty::GenericArgs::identity_for_item(tcx, *r);
            let i = Instance { def: InstanceKind::Item(*r), args: tcx.erase_and_anonymize_regions(args) };
            let key = dd.inst_key(&i);
            dd.seen.insert(key.clone());
            dd.instance(key, i, *r, true);
        }
        let mut n = 0;
        while let Some((k, i, r)) = dd.queue.pop_front() {
            n += 1;
            if n > 20000 {
                break;
            }
            dd.instance(k, i, r, false);
        }
        let types: Vec<String> = dd.types.iter().map(|t| t.clone().unwrap_or("null".into())).collect();
        let text = format!(
            "{{\"crate\":{},\"types\":{},\"impls\":{},\"fns\":{}}}",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            format!("[{}]", types.join(",\n")),
            arr(dd.local_impl_methods.clone()),
            format!("[{}]", dd.out.join(",\n"))
        );
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, text).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "scribe".into());
    let out = std::env::var("MIRDUMP_OUT").ok();
    if krate.as_deref() == Some(want.as_str()) && out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Zalways-encode-mir=yes".into());
        let out = out.unwrap();
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
    } else {
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Nop))
    }
}
