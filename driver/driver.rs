// MIR exporter: runs as the compiler for the witness crate and writes the monomorphic MIR of
// everything reachable from the witness' public functions (plus type layouts, constants and
// trait facts) as JSON. Built with plain rustc against the nightly's rustc-dev component.
#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::{internal, stable};
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
fn s(x: impl ToString) -> J {
    J::S(x.to_string())
}
fn i(x: impl TryInto<i128>) -> J {
    J::I(x.try_into().ok().unwrap_or(-1))
}
macro_rules! o { ($($k:expr => $v:expr),* $(,)?) => { J::O(vec![$(($k.to_string(), $v)),*]) } }
macro_rules! a { ($($v:expr),* $(,)?) => { J::A(vec![$($v),*]) } }

impl J {
    fn put(&self, w: &mut String) {
        match self {
            J::N => w.push_str("null"),
            J::B(b) => w.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(w, "{n}");
            }
            J::S(t) => {
                w.push('"');
                for c in t.chars() {
                    match c {
                        '"' => w.push_str("\\\""),
                        '\\' => w.push_str("\\\\"),
                        c if (c as u32) < 32 => {
                            let _ = write!(w, "\\u{:04x}", c as u32);
                        }
                        c => w.push(c),
                    }
                }
                w.push('"');
            }
            J::A(v) => {
                w.push('[');
                for (n, x) in v.iter().enumerate() {
                    if n > 0 {
                        w.push(',');
                    }
                    x.put(w);
                }
                w.push(']');
            }
            J::O(v) => {
                w.push('{');
                for (n, (k, x)) in v.iter().enumerate() {
                    if n > 0 {
                        w.push(',');
                    }
                    J::S(k.clone()).put(w);
                    w.push(':');
                    x.put(w);
                }
                w.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    types: Vec<J>,
    tyid: HashMap<Ty, usize>,
    insts: Vec<J>,
    instid: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    allocs: BTreeMap<usize, J>,
    allocid: HashMap<AllocId, usize>,
    leaf: Vec<String>,
    traits: Vec<(String, FnDef, rustc_span::def_id::DefId)>,
    mine: HashSet<String>,
}

fn is_mine(cx: &Cx, krate: &str) -> bool {
    cx.mine.contains(krate)
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let l = sp.get_lines();
        let f = sp.get_filename();
        s(format!("{}:{}", f, l.start_line))
    }

    fn garg(&mut self, g: &GenericArgKind) -> J {
        match g {
            GenericArgKind::Lifetime(_) => J::N,
            GenericArgKind::Type(t) => i(self.ty(*t) as i64),
            GenericArgKind::Const(c) => match c.eval_target_usize() {
                Ok(v) => o! {"const" => i(v)},
                Err(_) => o! {"const" => s(format!("{c:?}"))},
            },
        }
    }
    fn gargs(&mut self, g: &GenericArgs) -> J {
        J::A(g.0.iter().map(|x| self.garg(x)).collect())
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(n) = self.tyid.get(&t) {
            return *n;
        }
        let id = self.types.len();
        self.tyid.insert(t, id);
        self.types.push(J::N);
        let mut v: Vec<(String, J)> = vec![("str".into(), s(format!("{t}")))];
        let shape = t.layout().ok().map(|l| l.shape());
        if let Some(sh) = &shape {
            if sh.is_sized() {
                v.push(("size".into(), i(sh.size.bytes())));
                v.push(("align".into(), i(sh.abi_align)));
            }
        }
        let kind = t.kind();
        let mut k = |name: &str| v.push(("kind".into(), s(name)));
        match kind.rigid() {
            None => k("other"),
            Some(r) => match r {
                RigidTy::Bool => k("bool"),
                RigidTy::Char => k("char"),
                RigidTy::Int(t) => {
                    k("int");
                    v.push(("bits".into(), i(t.num_bytes() * 8)));
                    v.push(("signed".into(), J::B(true)));
                }
                RigidTy::Uint(t) => {
                    k("int");
                    v.push(("bits".into(), i(t.num_bytes() * 8)));
                    v.push(("signed".into(), J::B(false)));
                }
                RigidTy::Float(f) => {
                    k("float");
                    v.push((
                        "bits".into(),
                        i(match f {
                            FloatTy::F16 => 16,
                            FloatTy::F32 => 32,
                            FloatTy::F64 => 64,
                            FloatTy::F128 => 128,
                        }),
                    ));
                }
                RigidTy::Str => k("str"),
                RigidTy::Never => k("never"),
                RigidTy::Array(e, n) => {
                    k("array");
                    let e = self.ty(*e);
                    v.push(("elem".into(), i(e)));
                    v.push(("len".into(), n.eval_target_usize().map(|x| i(x)).unwrap_or(J::N)));
                }
                RigidTy::Slice(e) => {
                    k("slice");
                    let e = self.ty(*e);
                    v.push(("elem".into(), i(e)));
                }
                RigidTy::RawPtr(e, m) => {
                    k("ptr");
                    let e = self.ty(*e);
                    v.push(("to".into(), i(e)));
                    v.push(("mut".into(), J::B(*m == Mutability::Mut)));
                }
                RigidTy::Ref(_, e, m) => {
                    k("ref");
                    let e = self.ty(*e);
                    v.push(("to".into(), i(e)));
                    v.push(("mut".into(), J::B(*m == Mutability::Mut)));
                }
                RigidTy::Tuple(ts) => {
                    k("tuple");
                    let f: Vec<J> = ts.iter().map(|t| i(self.ty(*t))).collect();
                    v.push(("fields".into(), J::A(f)));
                    if let Some(sh) = &shape {
                        if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                            v.push(("offsets".into(), J::A(offsets.iter().map(|o| i(o.bytes())).collect())));
                        }
                    }
                }
                RigidTy::FnDef(d, args) => {
                    k("fndef");
                    v.push(("path".into(), s(d.name())));
                    let ga = self.gargs(args);
                    v.push(("args".into(), ga));
                    if let Ok(inst) = Instance::resolve(*d, args) {
                        let n = self.inst(inst);
                        v.push(("inst".into(), i(n)));
                    }
                }
                RigidTy::FnPtr(_) => k("fnptr"),
                RigidTy::Closure(d, args) => {
                    k("closure");
                    v.push(("path".into(), s(d.name())));
                    let n = args.0.len();
                    if n >= 3 {
                        if let GenericArgKind::Type(up) = &args.0[n - 1] {
                            let u = self.ty(*up);
                            v.push(("upvars".into(), i(u)));
                        }
                        // the closure's own kind is encoded as i8 / i16 / i32
                        let kind = match &args.0[n - 3] {
                            GenericArgKind::Type(t) => match t.kind().rigid() {
                                Some(RigidTy::Int(IntTy::I8)) => ClosureKind::Fn,
                                Some(RigidTy::Int(IntTy::I16)) => ClosureKind::FnMut,
                                _ => ClosureKind::FnOnce,
                            },
                            _ => ClosureKind::FnOnce,
                        };
                        v.push(("ckind".into(), s(format!("{kind:?}"))));
                        if let Ok(inst) = Instance::resolve_closure(*d, args, kind) {
                            let n = self.inst(inst);
                            v.push(("inst".into(), i(n)));
                        }
                    }
                }
                RigidTy::Dynamic(..) => k("dyn"),
                RigidTy::Adt(def, args) => {
                    k("adt");
                    v.push(("path".into(), s(def.name())));
                    v.push(("crate".into(), s(def.krate().name)));
                    v.push(("adt".into(), s(format!("{:?}", def.kind()))));
                    let ga = self.gargs(args);
                    v.push(("args".into(), ga));
                    let idef = internal(self.tcx, def.def_id());
                    let repr = self.tcx.adt_def(idef).repr();
                    v.push(("repr_c".into(), J::B(repr.c())));
                    v.push(("repr_transparent".into(), J::B(repr.transparent())));
                    let mut vars = vec![];
                    for (n, var) in def.variants().iter().enumerate() {
                        let mut fs = vec![];
                        let offs: Option<Vec<usize>> = shape.as_ref().and_then(|sh| match &sh.variants {
                            VariantsShape::Single { index } if index.to_index_() == n => match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => Some(offsets.iter().map(|o| o.bytes()).collect()),
                                FieldsShape::Union(c) => Some(vec![0; c.get()]),
                                _ => None,
                            },
                            VariantsShape::Multiple { variants, .. } => {
                                Some(variants[n].offsets.iter().map(|o| o.bytes()).collect())
                            }
                            _ => None,
                        });
                        for (fi, f) in var.fields().iter().enumerate() {
                            let fty = f.ty_with_args(args);
                            let fty = normalize(self.tcx, fty);
                            let ft = self.ty(fty);
                            let off = offs.as_ref().and_then(|o| o.get(fi)).map(|x| i(*x)).unwrap_or(J::N);
                            fs.push(a![s(&f.name), i(ft), off]);
                        }
                        let discr = if def.kind() == AdtKind::Enum {
                            i(def.discriminant_for_variant(var.idx()).val as i128)
                        } else {
                            J::N
                        };
                        vars.push(o! {"name" => s(var.name()), "discr" => discr, "fields" => J::A(fs)});
                    }
                    v.push(("variants".into(), J::A(vars)));
                    if let Some(sh) = &shape {
                        match &sh.variants {
                            VariantsShape::Multiple { tag, tag_encoding, .. } => {
                                let tagoff = match &sh.fields {
                                    FieldsShape::Arbitrary { offsets } => offsets[0].bytes(),
                                    _ => 0,
                                };
                                let tsz = match tag {
                                    Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                                        Primitive::Int { length, .. } => match length {
                                            IntegerLength::I8 => 1,
                                            IntegerLength::I16 => 2,
                                            IntegerLength::I32 => 4,
                                            IntegerLength::I64 => 8,
                                            IntegerLength::I128 => 16,
                                        },
                                        Primitive::Pointer(_) => 8,
                                        _ => 0,
                                    },
                                };
                                let enc = match tag_encoding {
                                    TagEncoding::Direct => o! {"kind" => s("direct")},
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => o! {
                                        "kind" => s("niche"),
                                        "untagged" => i(untagged_variant.to_index_()),
                                        "lo" => i(niche_variants.start().to_index_()),
                                        "hi" => i(niche_variants.end().to_index_()),
                                        "start" => i(*niche_start as i128),
                                    },
                                };
                                v.push(("tag".into(), o! {"off" => i(tagoff), "size" => i(tsz), "enc" => enc}));
                            }
                            VariantsShape::Single { index } => {
                                v.push(("single".into(), i(index.to_index_())));
                            }
                            VariantsShape::Empty => {}
                        }
                    }
                    // methods of the analysed crates' types that std code may call on them
                    if is_mine(self, &def.krate().name) || def.kind() == AdtKind::Union {
                        let m = self.methods(t);
                        v.push(("methods".into(), m));
                    }
                    v.push(("send".into(), J::B(self.auto(t, "Send"))));
                    v.push(("sync".into(), J::B(self.auto(t, "Sync"))));
                }
                other => v.push(("kind".into(), s(format!("other:{}", format!("{other:?}").chars().take(20).collect::<String>())))),
            },
        }
        self.types[id] = J::O(v);
        id
    }

    fn auto(&mut self, t: Ty, which: &str) -> bool {
        let tcx = self.tcx;
        let it = internal(tcx, t);
        let sym = rustc_span::Symbol::intern(which);
        let Some(did) = tcx.get_diagnostic_item(sym).or_else(|| {
            if which == "Sync" { tcx.lang_items().sync_trait() } else { None }
        }) else { return false };
        implements(tcx, it, did)
    }

    fn methods(&mut self, t: Ty) -> J {
        let tcx = self.tcx;
        let it = internal(tcx, t);
        let mut out = vec![];
        for n in 0..self.traits.len() {
            let (name, fd, tr) = self.traits[n].clone();
            if implements(tcx, it, tr) {
                if let Ok(inst) = Instance::resolve(fd, &GenericArgs(vec![GenericArgKind::Type(t)])) {
                    let k = self.inst(inst);
                    out.push((name, i(k)));
                }
            }
        }
        J::O(out)
    }

    fn is_leaf(&self, names: &[String]) -> bool {
        let hit = |neg: bool| names.iter().any(|n| {
            self.leaf.iter().filter(|l| l.starts_with('!') == neg).any(|l| {
                let l = l.trim_start_matches('!');
                if let Some(p) = l.strip_suffix('*') {
                    n.starts_with(p)
                } else {
                    n == l
                }
            })
        });
        hit(false) && !hit(true)
    }

    fn inst(&mut self, inst: Instance) -> usize {
        if let Some(n) = self.instid.get(&inst) {
            return *n;
        }
        let id = self.insts.len();
        self.instid.insert(inst, id);
        self.insts.push(J::N);
        self.queue.push_back((id, inst));
        id
    }

    fn finish_inst(&mut self, id: usize, inst: Instance) {
        let name = inst.name();
        let dname = inst.def.name();
        let krate = inst.def.krate().name;
        let mut v: Vec<(String, J)> = vec![
            ("name".into(), s(&name)),
            ("path".into(), s(&dname)),
            ("crate".into(), s(&krate)),
            ("kind".into(), s(format!("{:?}", inst.kind).split(' ').next().unwrap_or("").to_string())),
        ];
        if let Some(n) = inst.intrinsic_name() {
            v.push(("intrinsic".into(), s(n)));
        }
        let args = inst.args();
        let ga = self.gargs(&args);
        v.push(("args".into(), ga));
        v.push(("span".into(), self.span(inst.def.span())));
        let tcx = self.tcx;
        let did = internal(tcx, inst.def.def_id());
        // trait / impl facts
        if let Some(tr) = tcx.trait_of_assoc(did) {
            v.push(("trait".into(), s(tcx.def_path_str(tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(did) {
            if let Some(tr) = tcx.impl_opt_trait_id(im) {
                v.push(("impl_trait".into(), s(tcx.def_path_str(tr))));
            }
            v.push(("method".into(), s(tcx.item_name(did))));
            let st = stable(tcx.type_of(im).instantiate_identity().skip_norm_wip());
            v.push(("impl_self".into(), s(format!("{st}"))));
        } else if let Some(n) = tcx.opt_item_name(did) {
            v.push(("method".into(), s(n)));
        }
        let leaf = !is_mine(self, &krate) && self.is_leaf(&[name.clone(), dname.clone()]);
        let virt = matches!(inst.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic);
        if !leaf && !virt && !inst.is_foreign_item() && inst.kind != InstanceKind::Intrinsic {
            if let Some(b) = inst.body() {
                let body = self.body(&b);
                v.push(("body".into(), body));
            }
        }
        self.insts[id] = J::O(v);
    }

    fn place(&mut self, p: &Place) -> J {
        let mut proj = vec![];
        for e in &p.projection {
            proj.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(n, t) => {
                    let t = self.ty(*t);
                    a![s("f"), i(*n), i(t)]
                }
                ProjectionElem::Index(l) => a![s("i"), i(*l)],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    a![s("c"), i(*offset), i(*min_length), J::B(*from_end)]
                }
                ProjectionElem::Subslice { from, to, from_end } => a![s("s"), i(*from), i(*to), J::B(*from_end)],
                ProjectionElem::Downcast(v) => a![s("d"), i(v.to_index_())],
                ProjectionElem::OpaqueCast(t) => {
                    let t = self.ty(*t);
                    a![s("o"), i(t)]
                }
            });
        }
        a![i(p.local), J::A(proj)]
    }

    fn alloc_id(&mut self, id: AllocId) -> usize {
        if let Some(n) = self.allocid.get(&id) {
            return *n;
        }
        let n = self.allocid.len();
        self.allocid.insert(id, n);
        let g = GlobalAlloc::from(id);
        let j = match g {
            GlobalAlloc::Memory(al) => self.alloc(&al),
            GlobalAlloc::Static(st) => {
                let t = self.ty(st.ty());
                let init = match st.eval_initializer() {
                    Ok(al) => self.alloc(&al),
                    Err(_) => J::N,
                };
                o! {"static" => s(st.name()), "ty" => i(t), "init" => init}
            }
            GlobalAlloc::Function(inst) => {
                let n = self.inst(inst);
                o! {"fn" => i(n)}
            }
            other => o! {"other" => s(format!("{other:?}").chars().take(60).collect::<String>())},
        };
        self.allocs.insert(n, j);
        n
    }
    fn alloc(&mut self, al: &Allocation) -> J {
        let mut hex = String::new();
        for b in &al.bytes {
            match b {
                Some(b) => {
                    let _ = write!(hex, "{b:02x}");
                }
                None => hex.push_str("__"),
            }
        }
        let mut ptrs = vec![];
        for (off, prov) in &al.provenance.ptrs {
            let n = self.alloc_id(prov.0);
            ptrs.push(a![i(*off), i(n)]);
        }
        o! {"hex" => s(hex), "ptrs" => J::A(ptrs)}
    }

    fn constant(&mut self, c: &MirConst) -> J {
        let t = self.ty(c.ty());
        let val = match c.kind() {
            ConstantKind::Allocated(al) => self.alloc(al),
            ConstantKind::ZeroSized => s("zst"),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, al) => self.alloc(al),
                TyConstKind::ZSTValue(_) => s("zst"),
                _ => s("?ty"),
            },
            ConstantKind::Unevaluated(u) => s(format!("?unevaluated {}", u.def.name())),
            ConstantKind::Param(p) => s(format!("?param {}", p.name)),
        };
        o! {"ty" => i(t), "val" => val}
    }
    fn operand(&mut self, op: &Operand) -> J {
        match op {
            Operand::Copy(p) => a![s("C"), self.place(p)],
            Operand::Move(p) => a![s("M"), self.place(p)],
            Operand::Constant(c) => a![s("K"), self.constant(&c.const_)],
            Operand::RuntimeChecks(r) => a![s("R"), s(format!("{r:?}"))],
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::Use(op, _) => a![s("use"), self.operand(op)],
            Rvalue::AddressOf(k, p) => a![s("addr"), s(format!("{k:?}")), self.place(p)],
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => true,
                    _ => false,
                };
                a![s("ref"), J::B(m), self.place(p)]
            }
            Rvalue::Reborrow(_, m, p) => a![s("reborrow"), J::B(*m == Mutability::Mut), self.place(p)],
            Rvalue::Aggregate(k, ops) => {
                let kind = match k {
                    AggregateKind::Array(t) => a![s("array"), i(self.ty(*t))],
                    AggregateKind::Tuple => a![s("tuple")],
                    AggregateKind::Adt(d, v, ga, _, f) => {
                        let t = self.ty(d.ty_with_args(ga));
                        a![s("adt"), i(t), i(v.to_index_()), f.map(|x| i(x)).unwrap_or(J::N)]
                    }
                    AggregateKind::Closure(d, ga) => {
                        let t = self.ty(Ty::new_closure(*d, ga.clone()));
                        a![s("closure"), i(t)]
                    }
                    AggregateKind::RawPtr(t, m) => a![s("rawptr"), i(self.ty(*t)), J::B(*m == Mutability::Mut)],
                    _ => a![s("other")],
                };
                let v: Vec<J> = ops.iter().map(|x| self.operand(x)).collect();
                a![s("agg"), kind, J::A(v)]
            }
            Rvalue::BinaryOp(b, x, y) => a![s("bin"), s(format!("{b:?}")), self.operand(x), self.operand(y)],
            Rvalue::CheckedBinaryOp(b, x, y) => a![s("cbin"), s(format!("{b:?}")), self.operand(x), self.operand(y)],
            Rvalue::UnaryOp(u, x) => a![s("un"), s(format!("{u:?}")), self.operand(x)],
            Rvalue::Cast(k, x, t) => {
                let op = self.operand(x);
                let t = self.ty(*t);
                a![s("cast"), s(format!("{k:?}")), op, i(t)]
            }
            Rvalue::CopyForDeref(p) => a![s("use"), a![s("C"), self.place(p)]],
            Rvalue::Discriminant(p) => a![s("discr"), self.place(p)],
            Rvalue::Len(p) => a![s("len"), self.place(p)],
            Rvalue::Repeat(x, n) => {
                let op = self.operand(x);
                a![s("repeat"), op, n.eval_target_usize().map(|x| i(x)).unwrap_or(J::N)]
            }
            Rvalue::ThreadLocalRef(_) => a![s("tls")],
        }
    }

    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| i(self.ty(l.ty))).collect();
        let locals_tys = b.locals().to_vec();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut sts = vec![];
            for st in &bb.statements {
                let sp = self.span(st.source_info.span);
                match &st.kind {
                    StatementKind::Assign(p, r) => {
                        let rv = self.rvalue(r);
                        let pl = self.place(p);
                        let t = p.ty(&locals_tys).map(|t| i(self.ty(t))).unwrap_or(J::N);
                        sts.push(a![s("="), pl, rv, sp, t]);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        sts.push(a![s("sd"), self.place(place), i(variant_index.to_index_()), sp])
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        sts.push(a![s("cno"), self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), sp])
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(x)) => {
                        sts.push(a![s("assume"), self.operand(x), sp])
                    }
                    _ => {}
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let term = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => a![s("goto"), i(*target)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&locals_tys).map(|t| i(self.ty(t))).unwrap_or(J::N);
                    let br: Vec<J> = targets.branches().map(|(v, t)| a![i(v as i128), i(t)]).collect();
                    a![s("switch"), self.operand(discr), J::A(br), i(targets.otherwise()), t, sp]
                }
                TerminatorKind::Resume => a![s("resume")],
                TerminatorKind::Abort => a![s("abort")],
                TerminatorKind::Return => a![s("return"), sp],
                TerminatorKind::Unreachable => a![s("unreachable"), sp],
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&locals_tys).map(|t| i(self.ty(t))).unwrap_or(J::N);
                    a![s("drop"), self.place(place), i(*target), t, sp]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&locals_tys).ok();
                    let argv: Vec<J> = args.iter().map(|x| self.operand(x)).collect();
                    let argt: Vec<J> =
                        args.iter().map(|x| x.ty(&locals_tys).map(|t| i(self.ty(t))).unwrap_or(J::N)).collect();
                    let mut callee = vec![];
                    if let Some(t) = fty {
                        if let Some(RigidTy::FnDef(d, ga)) = t.kind().rigid() {
                            callee.push(("path".to_string(), s(d.name())));
                            let g = self.gargs(ga);
                            callee.push(("args".to_string(), g));
                            if let Ok(inst) = Instance::resolve(*d, ga) {
                                let n = self.inst(inst);
                                callee.push(("inst".to_string(), i(n)));
                            }
                        } else {
                            let f = self.operand(func);
                            callee.push(("indirect".to_string(), f));
                        }
                    }
                    let dt = destination.ty(&locals_tys).map(|t| i(self.ty(t))).unwrap_or(J::N);
                    a![
                        s("call"),
                        J::O(callee),
                        J::A(argv),
                        self.place(destination),
                        target.map(|t| i(t)).unwrap_or(J::N),
                        sp,
                        J::A(argt),
                        dt
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (kind, ops): (String, Vec<J>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len), self.operand(index)])
                        }
                        AssertMessage::Overflow(op, x, y) => {
                            (format!("overflow {op:?}"), vec![self.operand(x), self.operand(y)])
                        }
                        AssertMessage::OverflowNeg(x) => ("overflow Neg".into(), vec![self.operand(x)]),
                        AssertMessage::DivisionByZero(x) => ("div0".into(), vec![self.operand(x)]),
                        AssertMessage::RemainderByZero(x) => ("rem0".into(), vec![self.operand(x)]),
                        AssertMessage::MisalignedPointerDereference { .. } => ("misaligned".into(), vec![]),
                        AssertMessage::NullPointerDereference => ("nullptr".into(), vec![]),
                        other => (format!("{other:?}").chars().take(30).collect(), vec![]),
                    };
                    a![s("assert"), self.operand(cond), J::B(*expected), s(kind), J::A(ops), i(*target), sp]
                }
                TerminatorKind::InlineAsm { .. } => a![s("asm")],
            };
            blocks.push(a![J::A(sts), term]);
        }
        let mut names = vec![];
        for d in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &d.value {
                names.push(a![s(&d.name), self.place(p), d.argument_index.map(|x| i(x)).unwrap_or(J::N)]);
            }
        }
        o! {"argc" => i(b.arg_locals().len()), "locals" => J::A(locals), "blocks" => J::A(blocks), "names" => J::A(names), "span" => self.span(b.span), "spread" => b.spread_arg().map(|x| i(x)).unwrap_or(J::N)}
    }
}

trait ToIndex_ {
    fn to_index_(&self) -> usize;
}
impl ToIndex_ for VariantIdx {
    fn to_index_(&self) -> usize {
        rustc_public_bridge::IndexedVal::to_index(self)
    }
}

fn normalize<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>, t: Ty) -> Ty {
    let it = internal(tcx, t);
    let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
    let it = tcx.erase_and_anonymize_regions(it);
    match tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(it)) {
        Ok(x) => stable(x),
        Err(_) => t,
    }
}


fn implements<'tcx>(
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    t: rustc_middle::ty::Ty<'tcx>,
    tr: rustc_span::def_id::DefId,
) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
    let n = tcx.generics_of(tr).count();
    let t = tcx.erase_and_anonymize_regions(t);
    let params: Vec<rustc_middle::ty::GenericArg<'tcx>> = (0..n).map(|_| t.into()).collect();
    infcx.type_implements_trait(tr, params, penv).must_apply_modulo_regions()
}

fn implements_in<'tcx>(
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    t: rustc_middle::ty::Ty<'tcx>,
    tr: rustc_span::def_id::DefId,
    penv: rustc_middle::ty::ParamEnv<'tcx>,
) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let infcx = tcx.infer_ctxt().build(rustc_middle::ty::TypingMode::non_body_analysis());
    infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()
}

fn export(tcx: rustc_middle::ty::TyCtxt<'_>, out: &str) {
    let leaf: Vec<String> = std::env::var("VP_LEAF")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let mine: HashSet<String> =
        std::env::var("VP_MINE").unwrap_or_default().split(',').map(|x| x.to_string()).collect();
    let mut cx = Cx {
        tcx,
        types: vec![],
        tyid: HashMap::new(),
        insts: vec![],
        instid: HashMap::new(),
        queue: VecDeque::new(),
        allocs: BTreeMap::new(),
        allocid: HashMap::new(),
        leaf,
        traits: vec![],
        mine,
    };
    let find = |name: &str| {
        let l = tcx.lang_items();
        match name {
            "Clone" => l.clone_trait(),
            "PartialEq" => l.eq_trait(),
            "PartialOrd" => l.partial_ord_trait(),
            "Drop" => l.drop_trait(),
            _ => tcx.get_diagnostic_item(rustc_span::Symbol::intern(name)),
        }
    };
    for (tr, m) in [
        ("Iterator", "next"),
        ("Iterator", "size_hint"),
        ("IntoIterator", "into_iter"),
        ("DoubleEndedIterator", "next_back"),
        ("Clone", "clone"),
        ("PartialEq", "eq"),
        ("PartialOrd", "partial_cmp"),
        ("Drop", "drop"),
        ("Default", "default"),
    ] {
        if let Some(d) = find(tr) {
            if let Some(it) =
                tcx.associated_items(d).filter_by_name_unhygienic(rustc_span::Symbol::intern(m)).next()
            {
                let fd = FnDef(stable(it.def_id));
                cx.traits.push((format!("{tr}::{m}"), fd, d));
            }
        }
    }
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if item.kind() != ItemKind::Fn || item.requires_monomorphization() {
            continue;
        }
        let did = internal(tcx, item.def_id());
        if !tcx.visibility(did).is_public() {
            continue;
        }
        if let Ok(inst) = Instance::try_from(item) {
            let n = cx.inst(inst);
            roots.push((item.name().to_string(), i(n)));
        }
    }
    while let Some((n, inst)) = cx.queue.pop_front() {
        cx.finish_inst(n, inst);
    }
    // unsafe trait impls and manual Send/Sync of the analysed crates
    let mut impls = vec![];
    for tr in tcx.all_traits_including_private() {
        let name = tcx.def_path_str(tr);
        let interesting = matches!(name.as_str(), "std::marker::Send" | "std::marker::Sync" | "core::marker::Send" | "core::marker::Sync" | "Send" | "Sync")
            || name.ends_with("::PointConvertible")
            || name.ends_with("Iterator")
            || name.ends_with("::Producer")
            || name.ends_with("::Drop");
        if !interesting {
            continue;
        }
        for im in tcx.all_impls(tr) {
            let k = tcx.crate_name(im.krate).to_string();
            if !cx.mine.contains(&k) {
                continue;
            }
            let g = tcx.generics_of(im).count();
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let pol = format!("{:?}", tcx.impl_polarity(im));
            let sp = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(im));
            let tid = if g == 0 { i(cx.ty(stable(st))) } else { J::N };
            // what the type holds, each with the compiler's answer whether that is Send (Sync) by itself
            let mut holds = vec![];
            if let rustc_middle::ty::TyKind::Adt(def, args) = st.kind() {
                for v in def.variants() {
                    for f in &v.fields {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ok = implements_in(tcx, ft, tr, tcx.param_env(im));
                        holds.push(a![s(format!("{}.{}", v.name, f.name)), s(format!("{ft}")), J::B(ok)]);
                    }
                }
            }
            let items: Vec<J> = tcx.associated_items(im).in_definition_order().map(|x| s(x.name().to_string())).collect();
            impls.push(o! {"items" => J::A(items), "holds" => J::A(holds), "trait" => s(&name), "self" => s(format!("{st}")), "ty" => tid, "crate" => s(k), "span" => s(sp), "polarity" => s(pol), "generics" => i(g)});
        }
    }
    while let Some((n, inst)) = cx.queue.pop_front() {
        cx.finish_inst(n, inst);
    }
    let doc = o! {
        "roots" => J::O(roots),
        "insts" => J::A(cx.insts.clone()),
        "types" => J::A(cx.types.clone()),
        "allocs" => J::A(cx.allocs.values().cloned().collect()),
        "impls" => J::A(impls),
    };
    let mut w = String::new();
    doc.put(&mut w);
    std::fs::write(out, w).expect("write export");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: rustc_middle::ty::TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Ok(out) = std::env::var("VP_OUT") {
            rustc_public::rustc_internal::run(tcx, || export(tcx, &out)).expect("rustc_public");
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER style: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let wanted = std::env::var("VP_CRATE").unwrap_or_default();
    let name = args.iter().position(|x| x == "--crate-name").and_then(|p| args.get(p + 1)).cloned().unwrap_or_default();
    if name == wanted {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
