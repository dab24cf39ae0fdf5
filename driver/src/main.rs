#![feature(rustc_private)]
//! MIR dumper used as RUSTC_WORKSPACE_WRAPPER: dumps the monomorphised MIR of
//! the crate named by LC3_DUMP_CRATE (and of the small std combinators it uses)
//! as JSON to LC3_DUMP_OUT.  It only reads; the crate is never executed.
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_attr_ir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::CrateDef;
use rustc_public::crate_def::CrateDefType;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;


fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct D {
    types: Vec<String>,
    tymap: HashMap<Ty, usize>,
    files: Vec<String>,
    fileidx: HashMap<String, usize>,
    insts: Vec<Instance>,
    instmap: HashMap<Instance, usize>,
    instvirt: HashMap<usize, usize>,
    queue: VecDeque<usize>,
    allocs: HashMap<AllocId, String>,
    vtables: Vec<String>,
}

/// std bodies that are worth inlining (small, safe combinators).
const STD_OK: &[&str] = &[
    "std::option::", "std::result::", "std::ops::", "std::cmp::", "std::convert::",
    "std::iter::", "std::num::", "std::mem::take", "std::mem::replace", "std::mem::swap", "std::bool::", "std::array::",
    "std::clone::", "std::default::", "std::tuple::", "std::borrow::", "std::char::",
    "std::ascii::", "std::range::", "std::any::", "std::slice::", "std::str::", "std::vec::", "std::string::",
    "std::sync::atomic", "std::boxed::", "std::sync::", "std::hint::", "std::ptr::", "std::hash::", "std::collections::",
    "core::", "rand::", "std::io::", "std::fmt::",
];
const STD_NO: &[&str] = &[
    "std::slice::sort", "std::slice::memchr", "std::str::pattern", "std::str::count", "std::ptr::drop", "std::alloc", "std::fmt::rt", "std::fmt::builders", "std::collections::btree", "std::collections::hash", "std::collections::vec_deque", "std::vec::", "std::raw_vec", "std::hash::sip", "rand::",  "std::string::", "std::io::", "std::sync::",
];

impl D {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, i);
        let s = self.ty_json(t);
        self.types[i] = s;
        i
    }
    fn span(&mut self, sp: Span) -> (usize, usize) {
        let f = sp.get_filename();
        let l = sp.get_lines();
        let fi = match self.fileidx.get(&f) {
            Some(&i) => i,
            None => {
                let i = self.files.len();
                self.files.push(f.clone());
                self.fileidx.insert(f, i);
                i
            }
        };
        (fi, l.start_line)
    }
    fn layout(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let s = l.shape();
        let mut o = format!("{{\"size\":{}", s.size.bytes());
        match &s.fields {
            FieldsShape::Primitive => {}
            FieldsShape::Union(_) => {}
            FieldsShape::Array { stride, count } => {
                let _ = write!(o, ",\"stride\":{},\"count\":{}", stride.bytes(), count);
            }
            FieldsShape::Arbitrary { offsets } => {
                let _ = write!(o, ",\"offsets\":{}", arr(offsets.iter().map(|x| x.bytes().to_string())));
            }
        }
        match &s.variants {
            VariantsShape::Empty => o.push_str(",\"v\":\"empty\""),
            VariantsShape::Single { index } => {
                let _ = write!(o, ",\"v\":\"single\",\"vi\":{}", index.to_index());
            }
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let tagsz = match tag {
                    rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => {
                        value.size(&rustc_public::target::MachineInfo::target()).bytes()
                    }
                };
                let off = match &s.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                    _ => 0,
                };
                let _ = write!(o, ",\"v\":\"multi\",\"tagoff\":{},\"tagsz\":{}", off, tagsz);
                match tag_encoding {
                    TagEncoding::Direct => o.push_str(",\"enc\":\"direct\""),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let _ = write!(
                            o,
                            ",\"enc\":\"niche\",\"untagged\":{},\"nv\":[{},{}],\"ns\":{}",
                            untagged_variant.to_index(),
                            niche_variants.start().to_index(),
                            niche_variants.end().to_index(),
                            niche_start
                        );
                    }
                }
                let _ = write!(
                    o,
                    ",\"voffs\":{}",
                    arr(variants.iter().map(|v| arr(v.offsets.iter().map(|x| x.bytes().to_string()))))
                );
            }
        }
        o.push('}');
        o
    }
    fn args_json(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => match c.kind() {
                        TyConstKind::Value(_, al) => format!("{{\"c\":{}}}", al.read_uint().unwrap_or(0)),
                        _ => "{\"c\":null}".into(),
                    },
                }),
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let name = q(&format!("{}", t));
        let TyKind::RigidTy(r) = t.kind() else {
            return format!("{{\"k\":\"other\",\"n\":{}}}", name);
        };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\",\"n\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\",\"n\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"b\":{},\"n\":{}}}", i.num_bytes() * 8, name),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"b\":{},\"n\":{}}}", i.num_bytes() * 8, name),
            RigidTy::Float(_) => format!("{{\"k\":\"float\",\"n\":{}}}", name),
            RigidTy::Str => "{\"k\":\"str\",\"n\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\",\"n\":\"!\"}".into(),
            RigidTy::Tuple(ts) => {
                let f: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect();
                let l = self.layout(t);
                format!("{{\"k\":\"tuple\",\"n\":{},\"f\":[{}],\"l\":{}}}", name, f.join(","), l)
            }
            RigidTy::Array(e, c) => {
                let e2 = self.ty(e);
                let n = c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                let l = self.layout(t);
                format!("{{\"k\":\"array\",\"n\":{},\"e\":{},\"len\":{},\"l\":{}}}", name, e2, n, l)
            }
            RigidTy::Slice(e) => {
                let e2 = self.ty(e);
                let l = self.layout(e);
                format!("{{\"k\":\"slice\",\"n\":{},\"e\":{},\"el\":{}}}", name, e2, l)
            }
            RigidTy::Ref(_, e, m) => {
                let e2 = self.ty(e);
                format!("{{\"k\":\"ref\",\"n\":{},\"e\":{},\"m\":{}}}", name, e2, matches!(m, Mutability::Mut))
            }
            RigidTy::RawPtr(e, m) => {
                let e2 = self.ty(e);
                format!("{{\"k\":\"ptr\",\"n\":{},\"e\":{},\"m\":{}}}", name, e2, matches!(m, Mutability::Mut))
            }
            RigidTy::FnDef(def, args) => {
                let dn = q(&def.name());
                let inst = Instance::resolve(def, &args).ok();
                let a = self.args_json(&args);
                let (i, virt) = match inst {
                    Some(x) => {
                        let v = matches!(x.kind, InstanceKind::Virtual { .. });
                        (self.inst(x).to_string(), v)
                    }
                    None => ("null".into(), false),
                };
                format!("{{\"k\":\"fndef\",\"n\":{},\"def\":{},\"i\":{},\"virt\":{},\"a\":{}}}", name, dn, i, virt, a)
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"n\":{}}}", name),
            RigidTy::Closure(def, args) => {
                let inst = Instance::resolve_closure(def, &args, ClosureKind::Fn).ok();
                let i = match inst {
                    Some(x) => self.inst(x).to_string(),
                    None => "null".into(),
                };
                let l = self.layout(t);
                // upvar types: last generic arg is a tuple type
                let up = match args.0.last() {
                    Some(GenericArgKind::Type(u)) => self.ty(*u).to_string(),
                    _ => "null".into(),
                };
                format!("{{\"k\":\"closure\",\"n\":{},\"i\":{},\"up\":{},\"l\":{}}}", name, i, up, l)
            }
            RigidTy::Dynamic(_, _) => {
                let tr = t.kind().trait_principal().map(|p| p.skip_binder().def_id.name().to_string());
                format!("{{\"k\":\"dyn\",\"n\":{},\"tr\":{}}}", name, tr.map(|x| q(&x)).unwrap_or("null".into()))
            }
            RigidTy::Adt(def, args) => {
                let an = q(&def.name());
                let kind = match def.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let a = self.args_json(&args);
                let mut vs = vec![];
                for v in def.variants_iter() {
                    let discr = if matches!(def.kind(), AdtKind::Enum) {
                        def.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    let fs: Vec<String> = v
                        .fields()
                        .iter()
                        .map(|f| {
                            let ft = f.ty_with_args(&args);
                            format!("[{},{}]", q(&f.name), self.ty(ft))
                        })
                        .collect();
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", q(&v.name()), discr, fs.join(",")));
                }
                let l = self.layout(t);
                let local = def.krate().is_local;
                format!(
                    "{{\"k\":\"adt\",\"n\":{},\"adt\":{},\"ak\":\"{}\",\"a\":{},\"v\":[{}],\"l\":{},\"box\":{},\"local\":{}}}",
                    name, an, kind, a, vs.join(","), l, def.is_box(), local
                )
            }
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", name),
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&x) = self.instmap.get(&i) {
            return x;
        }
        let x = self.insts.len();
        self.insts.push(i);
        self.instmap.insert(i, x);
        self.queue.push_back(x);
        x
    }
    fn alloc(&mut self, id: AllocId) -> usize {
        let n = id.to_index();
        if self.allocs.contains_key(&id) {
            return n;
        }
        self.allocs.insert(id, String::new());
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"i\":{}}}", self.inst(i)),
            GlobalAlloc::VTable(t, tr) => {
                let ti = self.ty(t);
                format!("{{\"k\":\"vtable\",\"t\":{},\"tr\":{}}}", ti, tr.map(|x| q(&x.skip_binder().def_id.name())).unwrap_or("null".into()))
            }
            GlobalAlloc::Static(d) => {
                let t = self.ty(d.ty());
                let init = match d.eval_initializer() {
                    Ok(a) => self.allocation(&a),
                    Err(_) => "null".into(),
                };
                format!("{{\"k\":\"static\",\"n\":{},\"t\":{},\"a\":{}}}", q(&d.name()), t, init)
            }
            GlobalAlloc::Memory(a) => format!("{{\"k\":\"mem\",\"a\":{}}}", self.allocation(&a)),
            GlobalAlloc::TypeId { .. } => "{\"k\":\"typeid\"}".into(),
        };
        self.allocs.insert(id, s);
        n
    }
    fn allocation(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in &a.bytes {
            match b {
                Some(x) => {
                    let _ = write!(hex, "{:02x}", x);
                }
                None => hex.push_str("__"),
            }
        }
        let pv: Vec<String> = a.provenance.ptrs.iter().map(|(o, p)| format!("[{},{}]", o, self.alloc(p.0))).collect();
        format!("{{\"b\":\"{}\",\"p\":[{}]}}", hex, pv.join(","))
    }
    fn place(&mut self, p: &Place) -> String {
        let mut o = format!("[{}", p.local);
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => o.push_str(",[\"*\"]"),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    let _ = write!(o, ",[\"f\",{},{}]", i, t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l);
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(v) => {
                    let _ = write!(o, ",[\"d\",{}]", v.to_index());
                }
                ProjectionElem::OpaqueCast(t) => {
                    let t = self.ty(*t);
                    let _ = write!(o, ",[\"o\",{}]", t);
                }
            }
        }
        o.push(']');
        o
    }
    fn operand(&mut self, op: &Operand) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",\"{:?}\"]", r),
            Operand::Constant(c) => self.konst(&c.const_),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::ZeroSized => format!("[\"k\",{},null]", t),
            ConstantKind::Allocated(a) => {
                let a = self.allocation(a);
                format!("[\"k\",{},{}]", t, a)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let a = self.allocation(a);
                    format!("[\"k\",{},{}]", t, a)
                }
                TyConstKind::ZSTValue(_) => format!("[\"k\",{},null]", t),
                _ => format!("[\"k\",{},\"?\"]", t),
            },
            _ => format!("[\"k\",{},\"?\"]", t),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, ..) => self.operand(o),
            Rvalue::CopyForDeref(p) => format!("[\"cp\",{}]", self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"cp\",{}]", self.place(p)),
            Rvalue::BinaryOp(op, a, b) => {
                let (a, b) = (self.operand(a), self.operand(b));
                format!("[\"bin\",\"{:?}\",{},{}]", op, a, b)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (a, b) = (self.operand(a), self.operand(b));
                format!("[\"chk\",\"{:?}\",{},{}]", op, a, b)
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.operand(a);
                format!("[\"un\",\"{:?}\",{}]", op, a)
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), o, t)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, c) => {
                let o = self.operand(o);
                let n = c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", o, n)
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x)).collect();
                let o = format!("[{}]", o.join(","));
                match k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("[\"agg\",\"array\",{},0,{}]", t, o)
                    }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{}]", o),
                    AggregateKind::Adt(def, vi, args, _, fi) => {
                        let t = self.ty(def.ty_with_args(args));
                        let f = fi.map(|x| x.to_string()).unwrap_or("null".into());
                        format!("[\"agg\",\"adt\",{},{},{},{}]", t, vi.to_index(), o, f)
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = self.ty(Ty::new_closure(*def, args.clone()));
                        format!("[\"agg\",\"closure\",{},0,{}]", t, o)
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        format!("[\"agg\",\"rawptr\",{},0,{}]", t, o)
                    }
                    _ => "[\"agg\",\"?\",null,0,[]]".into(),
                }
            }
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let (bf, bl) = self.span(b.span);
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(format!("[{},{}]", q(&v.name), p));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let (f, l) = self.span(s.source_info.span);
                let sp = if f == bf { format!("{}", l) } else { format!("[{},{}]", f, l) };
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let (p, r) = (self.place(p), self.rvalue(r));
                        st.push(format!("[\"=\",{},{},{}]", p, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"sd\",{},{},{}]", p, variant_index.to_index(), sp));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let o = self.operand(o);
                        st.push(format!("[\"assume\",{},{}]", o, sp));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (a, d, n) = (self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count));
                        st.push(format!("[\"copy\",{},{},{},{}]", a, d, n, sp));
                    }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let (f, l) = self.span(t.source_info.span);
            let sp = if f == bf { format!("{}", l) } else { format!("[{},{}]", f, l) };
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"sw\",{},[{}],{},{},{}]", d, br.join(","), targets.otherwise(), sp, dt)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let p = self.place(place);
                    format!("[\"drop\",{},{},{},{}]", p, target, sp, ty)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let fj = self.operand(func);
                    let aj: Vec<String> = args.iter().map(|x| self.operand(x)).collect();
                    let d = self.place(destination);
                    let tg = target.map(|x| x.to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},[{}],{},{},{}]", fty, fj, aj.join(","), d, tg, sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let (kind, ops): (String, Vec<String>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len), self.operand(index)])
                        }
                        AssertMessage::Overflow(op, a, bb) => {
                            (format!("ovf{:?}", op), vec![self.operand(a), self.operand(bb)])
                        }
                        AssertMessage::OverflowNeg(a) => ("neg".into(), vec![self.operand(a)]),
                        AssertMessage::DivisionByZero(a) => ("div0".into(), vec![self.operand(a)]),
                        AssertMessage::RemainderByZero(a) => ("rem0".into(), vec![self.operand(a)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},[{}],{},{}]", c, expected, q(&kind), ops.join(","), target, sp)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[[{}],{}]", st.join(","), tj));
        }
        format!(
            "\"file\":{},\"line\":{},\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[{}]",
            bf,
            bl,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            locals.join(","),
            names.join(","),
            blocks.join(",\n")
        )
    }
}


fn dump(tcx: rustc_middle::ty::TyCtxt<'_>, out: &str) {
    let mut d = D {
        types: vec![],
        tymap: HashMap::new(),
        files: vec![],
        fileidx: HashMap::new(),
        insts: vec![],
        instmap: HashMap::new(),
        instvirt: HashMap::new(),
        queue: VecDeque::new(),
        allocs: HashMap::new(),
        vtables: vec![],
    };
    let mut generic = vec![];
    let mut roots = vec![];
    let mut cands = vec![Ty::unsigned_ty(UintTy::U16), Ty::signed_ty(IntTy::I16)];
    for ad in rustc_public::local_crate().adts() {
        let n = ad.name().to_string();
        if ["BufferedKeyboard", "BufferedDisplay", "TimerDevice", "ParseErr", "AsmErr", "SimErr"].iter().any(|x| n.ends_with(&format!("::{x}"))) {
            cands.push(ad.ty());
        }
    }
    // std range types over u32, for functions taking `impl RangeBounds<u32>`
    {
        use rustc_public::rustc_internal::stable;
        let li = tcx.lang_items();
        for def in [li.range_struct(), li.range_from_struct(), li.range_to_struct(), li.range_inclusive_struct(), li.range_to_inclusive_struct()].into_iter().flatten() {
            let a = tcx.mk_args(&[tcx.types.u32.into()]);
            cands.push(stable(rustc_middle::ty::Ty::new_adt(tcx, tcx.adt_def(def), a)));
        }
        if let Some(def) = li.range_full_struct() {
            cands.push(stable(rustc_middle::ty::Ty::new_adt(tcx, tcx.adt_def(def), tcx.mk_args(&[]))));
        }
        for it in rustc_public::all_local_items() {
            if it.name().ends_with("RangeBounds<u32>>::start_bound") {
                if let TyKind::RigidTy(RigidTy::FnDef(def, _)) = it.ty().kind() {
                    let sig = def.fn_sig().skip_binder();
                    if let TyKind::RigidTy(RigidTy::Adt(bd, _)) = sig.output().kind() {
                        let u = Ty::unsigned_ty(UintTy::U32);
                        let b = bd.ty_with_args(&GenericArgs(vec![GenericArgKind::Type(u)]));
                        cands.push(Ty::new_tuple(&[b, b]));
                    }
                }
                break;
            }
        }
    }
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if it.requires_monomorphization() {
            generic.push(q(&it.name()));
            let TyKind::RigidTy(RigidTy::FnDef(def, _)) = it.ty().kind() else { continue };
            for a in roots_for(tcx, &cands, &def) {
                if let Ok(i) = Instance::resolve(def, &a) {
                    roots.push(d.inst(i));
                }
            }
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            roots.push(d.inst(i));
        }
    }
    // trait impl tables: for `dyn Trait` calls
    let mut impls = vec![];
    for im in rustc_public::local_crate().trait_impls() {
        let tr = im.trait_impl();
        let tr = tr.value;
        let sty = tr.self_ty();
        let items: Vec<String> = im
            .associated_items()
            .iter()
            .filter_map(|a| match &a.kind {
                AssocKind::Fn { name, .. } => Some(format!("[{},{}]", q(&name.to_string()), q(&a.def_id.name()))),
                _ => None,
            })
            .collect();
        impls.push(format!(
            "{{\"tr\":{},\"self\":{},\"items\":[{}]}}",
            q(&tr.def_id.name()),
            q(&format!("{}", sty)),
            items.join(",")
        ));
    }
    let mut fns: Vec<(usize, String)> = vec![];
    let mut fid = vec![];
    while let Some(x) = d.queue.pop_front() {
        let i = d.insts[x];
        let name = i.name();
        let def = i.def.def_id().name();
        let local = i.def.krate().is_local;
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let want = (local && !def.contains("logos::Logos<'s>>::lex::"))
            || (STD_OK.iter().any(|p| def.starts_with(p)) && !STD_NO.iter().any(|p| def.starts_with(p)))
            || (def.starts_with("<") );
        let a = i.args();
        let aj = d.args_json(&a);
        let mut o = format!(
            "{{\"id\":{},\"name\":{},\"def\":{},\"local\":{},\"kind\":\"{}\",\"a\":{}",
            x, q(&name), q(&def), local, kind, aj
        );
        if want && matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) && !name.starts_with("std::ptr::drop_in_place") && !name.starts_with("std::ptr::drop_glue") {
            if let Some(b) = i.body() {
                let s = d.body(&b);
                o.push(',');
                o.push_str(&s);
            }
        }
        o.push('}');
        fns.push((x, o));
        fid.push(x);
    }
    // lexer attributes: variants with helper attributes
    let attrs = hir_attrs(tcx);
    let mut w = String::new();
    let _ = write!(w, "{{\"files\":{},\n", arr(d.files.iter().map(|f| q(f))));
    let _ = write!(w, "\"generic\":[{}],\n", generic.join(","));
    let _ = write!(w, "\"roots\":[{}],\n", roots.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let _ = write!(w, "\"impls\":[{}],\n", impls.join(",\n"));
    let _ = write!(w, "\"attrs\":[{}],\n", attrs.join(",\n"));
    let _ = write!(w, "\"vtables\":[{}],\n", d.vtables.join(",\n"));
    let al: Vec<String> = d.allocs.iter().map(|(k, v)| format!("\"{}\":{}", k.to_index(), v)).collect();
    let _ = write!(w, "\"allocs\":{{{}}},\n", al.join(",\n"));
    let _ = write!(w, "\"types\":[{}],\n", d.types.join(",\n"));
    let _ = write!(w, "\"fns\":[{}]}}\n", fns.iter().map(|(_, s)| s.clone()).collect::<Vec<_>>().join(",\n"));
    let tmp = format!("{}.tmp{}", out, std::process::id());
    std::fs::write(&tmp, w).unwrap();
    std::fs::rename(&tmp, out).unwrap();
    let _ = &d.instvirt;
}

/// Extra monomorphic roots for generic items that nothing in the crate instantiates:
/// every assignment of a small candidate set to the generic parameters that
/// satisfies the item's where clauses.
fn roots_for<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>, cands: &[Ty], def: &FnDef) -> Vec<GenericArgs> {
    use rustc_public::rustc_internal::{internal, stable};
    let did = internal(tcx, def.def_id());
    let g = tcx.generics_of(did);
    let icands: Vec<rustc_middle::ty::Ty<'tcx>> = cands.iter().map(|t| internal(tcx, *t)).collect();
    let n = g.count();
    let nty = (0..n).filter(|i| matches!(g.param_at(*i, tcx).kind, rustc_middle::ty::GenericParamDefKind::Type { .. })).count();
    let nco = (0..n).filter(|i| matches!(g.param_at(*i, tcx).kind, rustc_middle::ty::GenericParamDefKind::Const { .. })).count();
    if nty + nco > 2 || (nty + nco == 0) {
        return vec![];
    }
    let mut acc: Vec<Vec<rustc_middle::ty::GenericArg<'tcx>>> = vec![vec![]];
    for i in 0..n {
        let p = g.param_at(i, tcx);
        let mut nx = vec![];
        for pre in &acc {
            match p.kind {
                rustc_middle::ty::GenericParamDefKind::Lifetime => {
                    let mut v = pre.clone();
                    v.push(tcx.lifetimes.re_erased.into());
                    nx.push(v);
                }
                rustc_middle::ty::GenericParamDefKind::Type { .. } => {
                    for c in &icands {
                        let mut v = pre.clone();
                        v.push((*c).into());
                        nx.push(v);
                    }
                }
                rustc_middle::ty::GenericParamDefKind::Const { .. } => {
                    let ct = tcx.type_of(p.def_id).instantiate_identity().skip_norm_wip();
                    let vals: Vec<u128> = if ct.is_integral() { (0..=16).collect() } else { vec![] };
                    for x in vals {
                        let mut v = pre.clone();
                        let c = rustc_middle::ty::Const::from_bits(tcx, x, rustc_middle::ty::TypingEnv::fully_monomorphized(), ct);
                        v.push(c.into());
                        nx.push(v);
                    }
                }
            }
        }
        acc = nx;
    }
    let mut out = vec![];
    for a in acc {
        let args = tcx.mk_args(&a);
        if tcx.instantiate_and_check_impossible_clauses((did, args)) {
            continue;
        }
        out.push(GenericArgs(a.iter().map(|x| stable(x.kind())).collect()));
    }
    out
}

fn hir_attrs(tcx: rustc_middle::ty::TyCtxt<'_>) -> Vec<String> {
    use rustc_hir::def::DefKind;
    let mut out = vec![];
    let mut ids = vec![];
    for did in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(did), DefKind::Enum) {
            ids.push(did.to_def_id());
            for v in tcx.adt_def(did).variants() {
                ids.push(v.def_id);
            }
        }
    }
    for did in ids {
        let hid = tcx.local_def_id_to_hir_id(did.expect_local());
        for a in tcx.hir_attrs(hid) {
            let sp = match a { rustc_attr_ir::Attribute::Tool(n) | rustc_attr_ir::Attribute::DeriveHelper(n) => n.span, _ => continue };
            if let Ok(sn) = tcx.sess.source_map().span_to_snippet(sp) {
                out.push(format!("[{},{}]", q(&tcx.def_path_str(did)), q(&sn)));
            }
        }
    }
    out
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("LC3_DUMP_CRATE").unwrap_or_default();
    let out = std::env::var("LC3_DUMP_OUT").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want)
        && !args.iter().any(|a| a == "--test");
    if !is_target || out.is_empty() {
        let mut cb = NoCb;
        rustc_driver::compiler_entrypoint(&args, &mut cb);
        return;
    }
    let r: Result<(), rustc_public::CompilerError<()>> = run_with_tcx!(&args, |tcx: rustc_middle::ty::TyCtxt<'_>| {
        dump(tcx, &out);
        std::ops::ControlFlow::<(), ()>::Continue(())
    });
    if r.is_err() {
        std::process::exit(1);
    }
}
struct NoCb;
impl rustc_driver::Callbacks for NoCb {}
