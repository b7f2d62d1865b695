//! mirdump: a rustc driver that type-checks one crate and writes the monomorphic MIR reachable
//! from its functions (plus a type table and evaluated constants) as JSON. It never runs the crate.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

mod json;
use json::J;
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::ops::ControlFlow;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the path of rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") {
        args.remove(1);
    }
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "cafebabe".into());
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    let out = std::env::var("MIRDUMP_OUT").ok();
    if !is_target || out.is_none() {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
        return;
    }
    let out = out.unwrap();
    let r = rustc_public::run_with_tcx!(&args, |tcx| dump(tcx, &out));
    match r {
        Ok(()) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1);
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_list: Vec<Ty>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<(Instance, bool)>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(t);
        i
    }
    fn path(&self, def: rustc_public::DefId) -> String {
        let id = rustc_internal::internal(self.tcx, def);
        let krate = self.tcx.crate_name(id.krate).to_string();
        format!("{}{}", krate, self.tcx.def_path(id).to_string_no_crate_verbose())
    }
    fn descend(&self, path: &str) -> bool {
        const OK: &[&str] = &[
            "core::option::", "core::result::", "core::iter::", "core::ops::", "core::convert::",
            "core::cmp::", "core::clone::", "core::default::", "core::bool::", "core::borrow::",
            "core::tuple::", "core::array::",
        ];
        OK.iter().any(|p| path.starts_with(p))
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.insts.get(&i) {
            return *k;
        }
        let k = self.inst_list.len();
        let def = i.def.def_id();
        let path = self.path(def);
        let local = rustc_internal::internal(self.tcx, def).is_local();
        let desc = (local || self.descend(&path)) && i.has_body() && !matches!(i.kind, InstanceKind::Virtual { .. });
        self.insts.insert(i, k);
        self.inst_list.push((i, desc));
        k
    }
    fn span(&mut self, sp: Span) -> J {
        let f = sp.get_filename();
        let l = sp.get_lines();
        let next = self.file_list.len();
        let id = *self.files.entry(f.clone()).or_insert(next);
        if id == next {
            self.file_list.push(f);
        }
        J::A(vec![n(id), n(l.start_line), n(l.start_col)])
    }
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![n(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => J::A(vec![s("f"), n(*i), n(self.ty(*t))]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"), n(*offset as usize), n(*min_length as usize), J::B(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(*from as usize), n(*to as usize), J::B(*from_end)])
                }
                ProjectionElem::Downcast(v) => J::A(vec![s("v"), n(v.to_index())]),
                ProjectionElem::OpaqueCast(t) => J::A(vec![s("oc"), n(self.ty(*t))]),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let v = self.konst(&c.const_);
                J::A(vec![s("k"), n(self.ty(t)), v])
            }
            Operand::RuntimeChecks(_) => J::A(vec![s("rc")]),
        }
    }
    fn konst(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(*t, a, 0, 0),
                TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => J::A(vec![s("?"), s(format!("{:?}", tc))]),
            },
            k => J::A(vec![s("?"), s(format!("{:?}", k))]),
        }
    }
    fn zst(&mut self, t: Ty) -> J {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                let c = self.callee(d, &a);
                J::A(vec![s("fn"), c])
            }
            TyKind::RigidTy(RigidTy::Tuple(ref v)) if v.is_empty() => J::A(vec![s("tup")]),
            TyKind::RigidTy(RigidTy::Adt(d, _)) if d.num_variants() == 1 => {
                let fs: Vec<Ty> = self.adt_fields(t, 0);
                let mut v = vec![s("adt"), n(0)];
                for f in fs {
                    v.push(self.zst(f));
                }
                J::A(v)
            }
            TyKind::RigidTy(RigidTy::Array(..)) => J::A(vec![s("arr")]),
            _ => J::A(vec![s("zst")]),
        }
    }
    fn adt_fields(&self, t: Ty, vi: usize) -> Vec<Ty> {
        if let TyKind::RigidTy(RigidTy::Adt(d, a)) = t.kind() {
            let vs = d.variants();
            if vi < vs.len() {
                return vs[vi].fields().iter().map(|f| f.ty_with_args(&a)).collect();
            }
        }
        vec![]
    }
    fn uint(a: &Allocation, off: usize, sz: usize) -> Option<u128> {
        let mut r: u128 = 0;
        for i in 0..sz {
            let b = *a.bytes.get(off + i)?;
            r |= (b? as u128) << (8 * i);
        }
        Some(r)
    }
    fn size_of(&self, t: Ty) -> usize {
        t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0)
    }
    fn prov(a: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> J {
        let unk = |m: &str| J::A(vec![s("?"), s(m)]);
        if depth > 8 {
            return unk("depth");
        }
        let TyKind::RigidTy(rt) = t.kind() else { return unk("nonrigid") };
        match rt {
            RigidTy::Bool => match Self::uint(a, off, 1) {
                Some(v) => J::A(vec![s("b"), J::B(v != 0)]),
                None => unk("uninit"),
            },
            RigidTy::Char | RigidTy::Uint(_) => match Self::uint(a, off, self.size_of(t)) {
                Some(v) => J::A(vec![s("i"), J::S(v.to_string())]),
                None => unk("uninit"),
            },
            RigidTy::Int(_) => {
                let sz = self.size_of(t);
                match Self::uint(a, off, sz) {
                    Some(v) => {
                        let sh = 128 - 8 * sz as u32;
                        let v = ((v << sh) as i128) >> sh;
                        J::A(vec![s("i"), J::S(v.to_string())])
                    }
                    None => unk("uninit"),
                }
            }
            RigidTy::Float(_) => match Self::uint(a, off, self.size_of(t)) {
                Some(v) => J::A(vec![s("fl"), J::S(v.to_string())]),
                None => unk("uninit"),
            },
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return unk("layout") };
                let FieldsShape::Arbitrary { offsets } = l.shape().fields else {
                    return if ts.is_empty() { J::A(vec![s("tup")]) } else { unk("tuple") };
                };
                let mut v = vec![s("tup")];
                for (i, ft) in ts.iter().enumerate() {
                    v.push(self.decode(*ft, a, off + offsets[i].bytes(), depth + 1));
                }
                J::A(v)
            }
            RigidTy::Array(et, len) => {
                let len = len.eval_target_usize().unwrap_or(0) as usize;
                let es = self.size_of(et);
                self.decode_seq(et, es, a, off, len, depth)
            }
            RigidTy::Ref(_, pt, _) | RigidTy::RawPtr(pt, _) => {
                let Some(id) = Self::prov(a, off) else { return unk("noprov") };
                let GlobalAlloc::Memory(m) = GlobalAlloc::from(id) else { return unk("nonmem") };
                let poff = Self::uint(a, off, 8).unwrap_or(0) as usize;
                match pt.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let len = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                        let bytes: Vec<u8> =
                            (0..len).map(|i| m.bytes.get(poff + i).copied().flatten().unwrap_or(0)).collect();
                        J::A(vec![s("str"), s(String::from_utf8_lossy(&bytes).to_string())])
                    }
                    TyKind::RigidTy(RigidTy::Slice(et)) => {
                        let len = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                        let es = self.size_of(et);
                        let x = self.decode_seq(et, es, &m, poff, len, depth);
                        J::A(vec![s("slice"), x])
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => unk("dyn"),
                    _ => {
                        let x = self.decode(pt, &m, poff, depth + 1);
                        J::A(vec![s("ref"), x])
                    }
                }
            }
            RigidTy::Adt(d, _) => {
                let Ok(l) = t.layout() else { return unk("layout") };
                let sh = l.shape();
                let (vi, offs): (usize, Vec<usize>) = match sh.variants {
                    VariantsShape::Single { index } => {
                        let offs = match sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![],
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = sh.fields else { return unk("enum fields") };
                        let toff = offsets[tag_field].bytes();
                        let tsz = scalar_size(&tag);
                        let Some(raw) = Self::uint(a, off + toff, tsz) else { return unk("tag") };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                let mut r = None;
                                for v in d.variants() {
                                    if d.discriminant_for_variant(v.idx()).val & mask == raw {
                                        r = Some(v.idx().to_index());
                                    }
                                }
                                match r { Some(x) => x, None => return unk("tagval") }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                let rel = raw.wrapping_sub(niche_start) & mask;
                                let lo = niche_variants.start().to_index();
                                let hi = niche_variants.end().to_index();
                                if Self::prov(a, off + toff).is_none() && rel <= (hi - lo) as u128 {
                                    lo + rel as usize
                                } else {
                                    untagged_variant.to_index()
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    _ => return unk("variants"),
                };
                let fts = self.adt_fields(t, vi);
                let mut v = vec![s("adt"), n(vi)];
                for (i, ft) in fts.iter().enumerate() {
                    if i >= offs.len() {
                        v.push(unk("off"));
                    } else {
                        v.push(self.decode(*ft, a, off + offs[i], depth + 1));
                    }
                }
                J::A(v)
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => self.zst(t),
            RigidTy::FnPtr(_) => {
                if let Some(id) = Self::prov(a, off) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(id) {
                        let k = self.inst(i);
                        return J::A(vec![s("fnptr"), n(k)]);
                    }
                }
                unk("fnptr")
            }
            _ => unk("kind"),
        }
    }
    fn decode_seq(&mut self, et: Ty, es: usize, a: &Allocation, off: usize, len: usize, depth: usize) -> J {
        if matches!(et.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
            let v: Vec<J> = (0..len)
                .map(|i| J::I(a.bytes.get(off + i).copied().flatten().unwrap_or(0) as i128))
                .collect();
            return J::A(vec![s("bytes"), J::A(v)]);
        }
        let mut v = vec![s("arr")];
        for i in 0..len.min(4096) {
            v.push(self.decode(et, a, off + i * es, depth + 1));
        }
        J::A(v)
    }
    fn callee(&mut self, d: FnDef, a: &GenericArgs) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        let path = self.path(d.def_id());
        let tys: Vec<Ty> = a.0.iter().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None }).collect();
        o.push(("path", s(path.clone())));
        let ids: Vec<J> = tys.iter().map(|t| n(self.ty(*t))).collect();
        o.push(("targs", J::A(ids)));
        let consts: Vec<J> = a.0.iter().filter_map(|x| if let GenericArgKind::Const(c) = x { Some(J::I(c.eval_target_usize().unwrap_or(u64::MAX) as i128)) } else { None }).collect();
        if !consts.is_empty() {
            o.push(("cargs", J::A(consts)));
        }
        // Calls through Fn/FnMut/FnOnce on closures and function items: name the body called.
        let m = path.rsplit("::").next().unwrap_or("");
        if path.contains("::ops::function::") && matches!(m, "call" | "call_mut" | "call_once") && !tys.is_empty() {
            let mut t = tys[0];
            while let TyKind::RigidTy(RigidTy::Ref(_, it, _)) = t.kind() {
                t = it;
            }
            match t.kind() {
                TyKind::RigidTy(RigidTy::Closure(cd, ca)) => {
                    if let Ok(i) = Instance::resolve_closure(cd, &ca, ClosureKind::FnMut) {
                        let k = self.inst(i);
                        o.push(("closure", n(k)));
                        return J::O(o);
                    }
                }
                TyKind::RigidTy(RigidTy::FnDef(fd, fa)) => {
                    let c = self.callee(fd, &fa);
                    o.push(("fnitem", c));
                    return J::O(o);
                }
                _ => {}
            }
        }
        match Instance::resolve(d, a) {
            Ok(i) => {
                let kind = match i.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic => "intrinsic",
                    InstanceKind::LlvmIntrinsic => "llvm",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                };
                o.push(("kind", s(kind)));
                let rp = self.path(i.def.def_id());
                if rp != path {
                    o.push(("rpath", s(rp)));
                }
                let k = self.inst(i);
                o.push(("inst", n(k)));
            }
            Err(_) => o.push(("kind", s("unresolved"))),
        }
        if path.starts_with("core::iter::traits::") && !tys.is_empty() {
            if let Some(next) = tcx.lang_items().next_fn() {
                let self_ty = rustc_internal::internal(tcx, tys[0]);
                let args = tcx.mk_args(&[self_ty.into()]);
                if implements_iter(tcx, self_ty) {
                    if let Ok(Some(i)) = rustc_middle::ty::Instance::try_resolve(
                        tcx,
                        rustc_middle::ty::TypingEnv::fully_monomorphized(),
                        next,
                        args,
                    ) {
                        let i: Instance = rustc_internal::stable(i);
                        let k = self.inst(i);
                        o.push(("next", n(k)));
                        o.push(("nextpath", s(self.path(i.def.def_id()))));
                        if let Ok(abi) = i.fn_abi() {
                            let r = self.ty(abi.ret.ty);
                            o.push(("nextret", n(r)));
                        }
                    }
                }
            }
        }
        J::O(o)
    }
    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Ref(_, bk, p) => {
                J::A(vec![s("ref"), J::B(!matches!(bk, BorrowKind::Shared)), self.place(p)])
            }
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::AddressOf(_, p) => J::A(vec![s("addr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::BinaryOp(b, x, y) => {
                J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(x), self.operand(y)])
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                J::A(vec![s("cbin"), s(format!("{:?}", b)), self.operand(x), self.operand(y)])
            }
            Rvalue::UnaryOp(u, x) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(x)]),
            Rvalue::Cast(k, o, t) => {
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(o), n(self.ty(*t))])
            }
            Rvalue::Repeat(o, c) => {
                let l = c.eval_target_usize().unwrap_or(0);
                J::A(vec![s("rep"), self.operand(o), n(l as usize)])
            }
            Rvalue::ThreadLocalRef(c) => J::A(vec![s("tls"), s(c.name().to_string())]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(t) => J::A(vec![s("arr"), n(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![s("tup")]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        let mut x = vec![s("adt"), n(self.ty(t)), n(v.to_index())];
                        if let Some(f) = f {
                            x.push(n(*f));
                        }
                        J::A(x)
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        J::A(vec![s("clo"), n(self.ty(t))])
                    }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), n(self.ty(*t))]),
                    _ => J::A(vec![s("?")]),
                };
                let os: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                J::A(vec![s("agg"), kk, J::A(os)])
            }
        }
    }
    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| n(self.ty(l.ty))).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let pj = self.place(p);
                        let rj = self.rvalue(r);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), pj, rj, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(J::A(vec![s("setd"), pj, n(variant_index.to_index())]));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let oj = self.operand(o);
                        st.push(J::A(vec![s("assume"), oj]));
                    }
                    _ => {}
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => vec![s("goto"), n(*target)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let br: Vec<J> =
                        targets.branches().map(|(v, t)| J::A(vec![J::S(v.to_string()), n(t)])).collect();
                    vec![s("switch"), d, J::A(br), n(targets.otherwise())]
                }
                TerminatorKind::Resume => vec![s("resume")],
                TerminatorKind::Abort => vec![s("abort")],
                TerminatorKind::Return => vec![s("ret")],
                TerminatorKind::Unreachable => vec![s("unreachable")],
                TerminatorKind::Drop { place, target, .. } => {
                    let pj = self.place(place);
                    let pt = place.ty(b.locals()).ok();
                    let t = pt.map(|t| n(self.ty(t))).unwrap_or(J::I(-1));
                    vec![s("drop"), pj, n(*target), t]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<J> = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    vec![s("call"), f, J::A(a), d, target.map(|t| n(t)).unwrap_or(J::I(-1))]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            J::A(vec![s("bounds"), self.operand(len), self.operand(index)])
                        }
                        AssertMessage::Overflow(op, x, y) => {
                            J::A(vec![s("overflow"), s(format!("{:?}", op)), self.operand(x), self.operand(y)])
                        }
                        AssertMessage::OverflowNeg(x) => J::A(vec![s("overflow_neg"), self.operand(x)]),
                        AssertMessage::DivisionByZero(x) => J::A(vec![s("div0"), self.operand(x)]),
                        AssertMessage::RemainderByZero(x) => J::A(vec![s("rem0"), self.operand(x)]),
                        m => J::A(vec![s("other"), s(format!("{:?}", m))]),
                    };
                    vec![s("assert"), c, J::B(*expected), m, n(*target)]
                }
                TerminatorKind::InlineAsm { .. } => vec![s("asm")],
            };
            blocks.push(J::A(vec![J::A(st), J::A(t), sp]));
        }
        let dbg: Vec<J> = b
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => {
                    Some(J::A(vec![s(v.name.to_string()), n(p.local)]))
                }
                _ => None,
            })
            .collect();
        J::O(vec![
            ("argc", n(b.arg_locals().len())),
            ("spread", b.spread_arg().map(|x| n(x)).unwrap_or(J::I(-1))),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("dbg", J::A(dbg)),
        ])
    }
    fn tyjson(&mut self, t: Ty) -> J {
        let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{}", rustc_internal::internal(self.tcx, t))))];
        let TyKind::RigidTy(rt) = t.kind() else {
            o.push(("k", s("other")));
            return J::O(o);
        };
        match rt {
            RigidTy::Bool => o.push(("k", s("bool"))),
            RigidTy::Char => o.push(("k", s("char"))),
            RigidTy::Int(_) => { o.push(("k", s("int"))); o.push(("bits", n(8 * self.size_of(t)))) }
            RigidTy::Uint(_) => { o.push(("k", s("uint"))); o.push(("bits", n(8 * self.size_of(t)))) }
            RigidTy::Float(_) => { o.push(("k", s("float"))); o.push(("bits", n(8 * self.size_of(t)))) }
            RigidTy::Str => o.push(("k", s("str"))),
            RigidTy::Never => o.push(("k", s("never"))),
            RigidTy::Array(e, c) => {
                o.push(("k", s("array")));
                o.push(("e", n(self.ty(e))));
                o.push(("n", n(c.eval_target_usize().unwrap_or(0) as usize)));
            }
            RigidTy::Slice(e) => { o.push(("k", s("slice"))); o.push(("e", n(self.ty(e)))); }
            RigidTy::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                o.push(("e", n(self.ty(e))));
                o.push(("mut", J::B(m == Mutability::Mut)));
            }
            RigidTy::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("e", n(self.ty(e))));
                o.push(("mut", J::B(m == Mutability::Mut)));
            }
            RigidTy::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                let c = self.callee(d, &a);
                o.push(("callee", c));
            }
            RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
            RigidTy::Closure(d, a) => {
                o.push(("k", s("closure")));
                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnMut) {
                    let k = self.inst(i);
                    o.push(("inst", n(k)));
                }
            }
            RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
            RigidTy::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|t| n(self.ty(*t))).collect();
                o.push(("fs", J::A(v)));
            }
            RigidTy::Adt(d, a) => {
                o.push(("k", s("adt")));
                let path = self.path(d.def_id());
                o.push(("name", s(path.clone())));
                let id = rustc_internal::internal(self.tcx, d.def_id());
                o.push(("local", J::B(id.is_local())));
                o.push(("enum", J::B(d.kind() == AdtKind::Enum)));
                let v: Vec<J> = a.0.iter()
                    .filter_map(|x| if let GenericArgKind::Type(t) = x { Some(n(self.ty(*t))) } else { None })
                    .collect();
                o.push(("targs", J::A(v)));
                let small = id.is_local() || ["core::option::", "core::result::", "core::ops::", "core::iter::", "core::cmp::", "alloc::borrow::", "core::array", "core::convert"].iter().any(|p| path.starts_with(p));
                if small && d.kind() != AdtKind::Union {
                    let mut vs = vec![];
                    for v in d.variants() {
                        let fs: Vec<J> = v.fields().iter()
                            .map(|f| J::A(vec![s(f.name.to_string()), n(self.ty(f.ty_with_args(&a)))]))
                            .collect();
                        let dv = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(J::A(vec![s(v.name().to_string()), J::S(dv), J::A(fs)]));
                    }
                    o.push(("vs", J::A(vs)));
                }
            }
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }
}

fn implements_iter<'tcx>(tcx: TyCtxt<'tcx>, t: rustc_middle::ty::Ty<'tcx>) -> bool {
    let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) else { return false };
    use rustc_middle::ty;
    let tref = ty::TraitRef::new(tcx, tr, [t]);
    tcx.codegen_select_candidate(
        ty::TypingEnv::fully_monomorphized().as_query_input(tref),
    ).is_ok()
}

struct UnsafeVisitor<'a> {
    found: Vec<rustc_span::Span>,
    _p: std::marker::PhantomData<&'a ()>,
}
impl<'a> rustc_hir::intravisit::Visitor<'a> for UnsafeVisitor<'a> {
    fn visit_block(&mut self, b: &'a rustc_hir::Block<'a>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            self.found.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) -> ControlFlow<(), ()> {
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_list: vec![],
        insts: HashMap::new(),
        inst_list: vec![],
        files: HashMap::new(),
        file_list: vec![],
    };
    let mut roots = vec![];
    let mut unsafe_sites = vec![];
    let ev = tcx.effective_visibilities(());
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        let id = rustc_internal::internal(tcx, item.def_id());
        if let Some(l) = id.as_local() {
            if let Some(body) = tcx.hir_maybe_body_owned_by(l) {
                let mut v = UnsafeVisitor { found: vec![], _p: Default::default() };
                rustc_hir::intravisit::Visitor::visit_body(&mut v, body);
                for sp in v.found {
                    unsafe_sites.push(s(tcx.sess.source_map().span_to_diagnostic_string(sp)));
                }
            }
        }
        if tcx.is_closure_like(id) {
            continue;
        }
        let generic = tcx.generics_of(id).requires_monomorphization(tcx);
        let path = cx.path(item.def_id());
        let vis = id.as_local().map(|l| ev.is_reachable(l)).unwrap_or(false);
        let trait_impl = tcx.trait_impl_of_assoc(id).map(|t| {
            let tr = tcx.impl_trait_ref(t).skip_binder();
            (tcx.def_path_str(tr.def_id), format!("{}", tr.self_ty()))
        });
        let derived = tcx.trait_impl_of_assoc(id).map(|t| tcx.is_builtin_derived(t)).unwrap_or(false);
        let mut o = vec![("path", s(path)), ("vis", J::B(vis)), ("generic", J::B(generic)), ("derived", J::B(derived))];
        if let Some((t, st)) = trait_impl {
            o.push(("trait", s(t)));
            o.push(("self", s(st)));
            // the other type of a comparison, and what a hand-written generic implementation (hashing) calls
            if let Some(ti) = tcx.trait_impl_of_assoc(id) {
                let tr = tcx.impl_trait_ref(ti).skip_binder();
                if let Some(rhs) = tr.args.types().nth(1) {
                    o.push(("rhs", s(format!("{}", rhs))));
                }
                if generic && !derived {
                    let mut calls = vec![];
                    for bb in tcx.optimized_mir(id).basic_blocks.iter() {
                        if let rustc_middle::mir::TerminatorKind::Call { func, .. } = &bb.terminator().kind {
                            calls.push(s(match func.const_fn_def() { Some((d, _)) => tcx.def_path_str(d), None => "?".to_string() }));
                        }
                    }
                    o.push(("calls", J::A(calls)));
                }
            }
        }
        if tcx.fn_sig(id).skip_binder().safety() == rustc_hir::Safety::Unsafe { unsafe_sites.push(s(format!("unsafe fn {}", tcx.def_path_str(id)))); }
        if !generic {
            if let Ok(i) = Instance::try_from(item) {
                let k = cx.inst(i);
                o.push(("inst", n(k)));
            }
        }
        let sp = cx.span(item.span());
        o.push(("span", sp));
        roots.push(J::O(o));
    }
    for l in tcx.hir_crate_items(()).free_items() {
        let it = tcx.hir_item(l);
        if let rustc_hir::ItemKind::Impl(im) = &it.kind {
            if let Some(t) = im.of_trait {
                if t.safety.is_unsafe() {
                    unsafe_sites.push(s(tcx.sess.source_map().span_to_diagnostic_string(it.span)));
                }
            }
        }
    }
    let mut statics = vec![];
    for l in tcx.hir_crate_items(()).free_items() {
        let it = tcx.hir_item(l);
        if let rustc_hir::ItemKind::Static(m, ..) = &it.kind {
            let did = it.owner_id.to_def_id();
            let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let freeze = ty.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
            statics.push(J::O(vec![
                ("path", s(tcx.def_path_str(did))),
                ("span", s(tcx.sess.source_map().span_to_diagnostic_string(it.span))),
                ("mutable", J::B(matches!(m, rustc_hir::Mutability::Mut))),
                ("freeze", J::B(freeze)),
            ]));
        }
    }
    // associated constants of the crate's own types that are one scalar
    let mut consts = vec![];
    for l in tcx.hir_crate_items(()).impl_items() {
        let did = l.owner_id.to_def_id();
        if !matches!(tcx.def_kind(did), rustc_hir::def::DefKind::AssocConst { .. }) { continue; }
        let im = tcx.parent(did);
        if !matches!(tcx.def_kind(im), rustc_hir::def::DefKind::Impl { of_trait: false }) || tcx.generics_of(did).requires_monomorphization(tcx) { continue; }
        let own = tcx.type_of(im).instantiate_identity().skip_norm_wip();
        let rustc_middle::ty::TyKind::Adt(def, _) = own.kind() else { continue };
        let val = match tcx.const_eval_poly(did) {
            Ok(rustc_middle::mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i))) => i,
            _ => continue,
        };
        consts.push(J::O(vec![
            ("type", s(tcx.def_path_str(def.did()))),
            ("name", s(tcx.item_name(did).to_string())),
            ("own", J::B(tcx.type_of(did).instantiate_identity().skip_norm_wip() == own)),
            ("value", s(val.to_bits(val.size()).to_string())),
            ("reachable", J::B(def.did().as_local().map_or(false, |d| tcx.effective_visibilities(()).is_reachable(d)))),
            ("span", s(tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(did)))),
        ]));
    }
    let mut pubtypes = vec![];
    let ev = tcx.effective_visibilities(());
    for l in tcx.hir_crate_items(()).free_items() {
        let it = tcx.hir_item(l);
        if matches!(it.kind, rustc_hir::ItemKind::Struct(..) | rustc_hir::ItemKind::Enum(..) | rustc_hir::ItemKind::Union(..)) && ev.is_reachable(it.owner_id.def_id) {
            let did = it.owner_id.to_def_id();
            let g = tcx.generics_of(did);
            let nl = g.own_params.iter().filter(|p| matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Lifetime)).count();
            let nt = g.own_params.len() - nl;
            let mut open = true;
            let mut m = tcx.parent_module_from_def_id(it.owner_id.def_id).to_def_id();
            while !m.is_crate_root() {
                if !tcx.visibility(m).is_public() { open = false; }
                m = tcx.parent(m);
            }
            pubtypes.push(J::O(vec![("path", s(tcx.def_path_str(did))), ("lifetimes", n(nl)), ("types", n(nt)), ("open", J::B(open))]));
        }
    }
    let mut fns = vec![];
    let mut tys = vec![];
    let mut i = 0;
    loop {
    while i < cx.inst_list.len() {
        let (inst, desc) = cx.inst_list[i];
        let def = inst.def.def_id();
        let path = cx.path(def);
        let idi = rustc_internal::internal(tcx, def);
        let mut o = vec![
            ("path", s(path)),
            ("name", s(inst.name().to_string())),
            ("local", J::B(idi.is_local())),
            ("shim", J::B(inst.kind == InstanceKind::Shim)),
        ];
        if let Some(t) = tcx.trait_impl_of_assoc(idi) {
            o.push(("trait", s(tcx.def_path_str(tcx.impl_trait_id(t)))));
        }
        let sp = cx.span(def.span());
        o.push(("span", sp));
        let targs: Vec<J> = inst.args().0.iter()
            .filter_map(|x| if let GenericArgKind::Type(t) = x { Some(n(cx.ty(*t))) } else { None })
            .collect();
        o.push(("targs", J::A(targs)));
        if desc {
            if let Some(b) = inst.body() {
                let bj = cx.body(&b);
                o.push(("body", bj));
            }
        }
        fns.push(J::O(o));
        i += 1;
    }
    while tys.len() < cx.ty_list.len() {
        let t = cx.ty_list[tys.len()];
        let j = cx.tyjson(t);
        tys.push(j);
    }
    if i == cx.inst_list.len() {
        break;
    }
    }
    let files: Vec<J> = cx.file_list.iter().map(|f| s(f.clone())).collect();
    let j = J::O(vec![
        ("roots", J::A(roots)),
        ("fns", J::A(fns)),
        ("tys", J::A(tys)),
        ("files", J::A(files)),
        ("unsafe", J::A(unsafe_sites)),
        ("statics", J::A(statics)),
        ("pubtypes", J::A(pubtypes)),
        ("consts", J::A(consts)),
    ]);
    let mut buf = String::new();
    j.write(&mut buf);
    std::fs::write(out, buf).unwrap();
    ControlFlow::Continue(())
}

fn scalar_size(x: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{IntegerLength, Primitive, Scalar};
    let p = match x {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => match length {
            IntegerLength::I8 => 1,
            IntegerLength::I16 => 2,
            IntegerLength::I32 => 4,
            IntegerLength::I64 => 8,
            IntegerLength::I128 => 16,
        },
        Primitive::Pointer(_) => 8,
        _ => 8,
    }
}
