//! Lowers parsed IR into the form the executor steps over: resolved registers, blocks, constants, layouts.
use crate::expr::E;
use crate::ir::{self, Const, Inst, Opnd, TOp, Ty};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
}

#[derive(Debug)]
pub enum T {
    Int(u32),
    Agg { fields: Vec<(u64, Rc<T>)>, size: u64, align: u64 },
    Void,
}
impl T {
    pub fn size(&self) -> u64 {
        match self {
            T::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            T::Agg { size, .. } => *size,
            T::Void => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            T::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                b.next_power_of_two().min(16)
            }
            T::Agg { align, .. } => *align,
            T::Void => 1,
        }
    }
    pub fn w(&self) -> u32 {
        match self {
            T::Int(w) => *w,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

pub enum I {
    Bin(BinOp, u32, O, O),
    VBin(BinOp, u32, O, O),
    Icmp(Pred, u32, O, O),
    VIcmp(Pred, u32, O, O),
    Select(O, u32, O, O),
    VSelect(O, u32, O, O),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(O, u32, u32, Vec<(u128, u32)>),
    Ret(Option<O>),
    Unreachable,
    Call { callee: O, fixed: Option<u32>, args: Vec<(O, u32)>, ret: Rc<T>, normal: Option<u32> },
    Alloca(u64, O, u64),
    Load(Rc<T>, O),
    Store(Rc<T>, O, O),
    Gep(O, i64, Vec<(O, u32, i64)>),
    Trunc(O, u32, u32),
    Zext(O, u32, u32),
    Sext(O, u32, u32),
    VCast(u8, O, u32, u32),
    Bitcast(O, Rc<T>, Rc<T>),
    Copy(O),
    Extract(O, Vec<u32>),
    Insert(O, O, Vec<u32>, Rc<T>),
    ExtractElem(O, O),
    InsertElem(O, O, O, u64),
    Shuffle(O, O, Vec<u32>, u64),
    Rmw(String, O, O, u32),
    CmpXchg(O, O, O, u32),
    Fence,
    Bad(String),
}

pub struct CIns {
    pub dst: u32,
    pub i: I,
}
pub const NODST: u32 = u32::MAX;

pub struct Block {
    /// (dst, [(pred block, value)])
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub ins: Vec<CIns>,
}
pub struct CFunc {
    pub name: String,
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct GlobalInit {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub bytes: Vec<u8>,
    pub constant: bool,
}

pub struct Prog {
    pub m: ir::Module,
    pub addr: HashMap<String, u64>,
    pub fn_at: HashMap<u64, u32>,
    pub fn_idx: HashMap<String, u32>,
    pub compiled: std::cell::RefCell<Vec<Option<Rc<CFunc>>>>,
    pub globals: Vec<GlobalInit>,
    tys: std::cell::RefCell<HashMap<Ty, Rc<T>>>,
}

pub const FN_BASE: u64 = 0x1000_0000;
pub const GLOBAL_BASE: u64 = 0x2000_0000;
pub const HEAP_BASE: u64 = 0x4000_0000;

impl Prog {
    pub fn new(m: ir::Module) -> Prog {
        let mut p = Prog { m, addr: HashMap::new(), fn_at: HashMap::new(), fn_idx: HashMap::new(), compiled: Default::default(), globals: vec![], tys: Default::default() };
        for (i, f) in p.m.funcs.iter().enumerate() {
            let a = FN_BASE + 16 * i as u64;
            p.addr.insert(f.name.clone(), a);
            p.fn_at.insert(a, i as u32);
            p.fn_idx.insert(f.name.clone(), i as u32);
        }
        p.compiled.borrow_mut().resize_with(p.m.funcs.len(), || None);
        let mut a = GLOBAL_BASE;
        let mut sizes = vec![];
        for g in &p.m.globals {
            let t = p.ty(&g.ty);
            let sz = t.size();
            let al = g.align.max(t.align()).max(16);
            a = (a + al - 1) / al * al;
            let ad = if g.weak && g.init.is_none() { 0 } else { a };
            p.addr.insert(g.name.clone(), ad);
            sizes.push((a, sz));
            a += sz + 32;
        }
        let aliases = std::mem::take(&mut p.m.aliases);
        for (n, c) in &aliases {
            let v = p.const_u64(c);
            p.addr.insert(n.clone(), v);
        }
        for (i, (ad, sz)) in sizes.iter().enumerate() {
            let g = &p.m.globals[i];
            let mut bytes = vec![0u8; *sz as usize];
            if let Some(c) = &g.init {
                let t = p.ty(&g.ty);
                p.const_bytes(c, &t, &mut bytes);
            }
            p.globals.push(GlobalInit { name: g.name.clone(), addr: *ad, size: *sz, bytes, constant: g.constant });
        }
        p
    }

    pub fn ty(&self, t: &Ty) -> Rc<T> {
        if let Some(r) = self.tys.borrow().get(t) {
            return r.clone();
        }
        let r = Rc::new(match t {
            Ty::Void | Ty::Other | Ty::Func => T::Void,
            Ty::Int(w) => T::Int(*w),
            Ty::Ptr => T::Int(64),
            Ty::Float(w) => T::Int(*w),
            Ty::Arr(n, e) => {
                let e = self.ty(e);
                let s = e.size();
                T::Agg { fields: (0..*n).map(|i| (i * s, e.clone())).collect(), size: n * s, align: e.align() }
            }
            Ty::Vec(n, e) => {
                let e = self.ty(e);
                if e.w() == 1 {
                    // bit vectors are never stored by the code this runs; layout is unused
                    return Rc::new(T::Agg { fields: (0..*n).map(|i| (i, e.clone())).collect(), size: *n, align: 1 });
                }
                let s = (e.w() / 8) as u64;
                T::Agg { fields: (0..*n).map(|i| (i * s, e.clone())).collect(), size: n * s, align: (n * s).next_power_of_two() }
            }
            Ty::Struct(packed, fs) => {
                let mut o = 0u64;
                let mut al = 1;
                let mut v = vec![];
                for f in fs.iter() {
                    let t = self.ty(f);
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                        al = al.max(a);
                    }
                    let s = t.size();
                    v.push((o, t));
                    o += s;
                }
                o = (o + al - 1) / al * al;
                T::Agg { fields: v, size: o, align: al }
            }
            Ty::Named(n) => {
                let t = self.m.types.get(n).cloned().unwrap_or(Ty::Other);
                return self.ty(&t);
            }
        });
        self.tys.borrow_mut().insert(t.clone(), r.clone());
        r
    }

    pub fn zero_of(&self, t: &T) -> V {
        match t {
            T::Agg { fields, .. } => V::A(Rc::new(fields.iter().map(|f| self.zero_of(&f.1)).collect())),
            _ => V::C(0),
        }
    }

    fn gep_off(&self, ty: &Ty, idx: &[i128]) -> i64 {
        let mut off = 0i64;
        let mut t = self.ty(ty);
        for (i, x) in idx.iter().enumerate() {
            if i == 0 {
                off += *x as i64 * t.size() as i64;
            } else {
                let nt = match &*t {
                    T::Agg { fields, .. } => {
                        // arrays may be indexed out of declared bounds in constant expressions: use the stride
                        if let Some(f) = fields.get(*x as usize) {
                            off += f.0 as i64;
                            f.1.clone()
                        } else if !fields.is_empty() {
                            let f = &fields[0];
                            off += *x as i64 * f.1.size() as i64;
                            f.1.clone()
                        } else {
                            panic!("gep into empty aggregate")
                        }
                    }
                    _ => panic!("gep into scalar"),
                };
                t = nt;
            }
        }
        off
    }

    fn const_int(&self, c: &Const) -> u128 {
        match c {
            Const::Int(k) => *k,
            Const::Null | Const::Undef | Const::Zero => 0,
            Const::Global(n) => match self.addr.get(n) {
                Some(a) => *a as u128,
                None => 0xdead_0000,
            },
            Const::Gep(t, p, idx) => {
                let b = self.const_int(p) as u64;
                let ix: Vec<i128> = idx.iter().map(|c| self.const_int(c) as i64 as i128).collect();
                b.wrapping_add(self.gep_off(t, &ix) as u64) as u128
            }
            Const::Cast(_, _, c, to) => {
                let v = self.const_int(c);
                let w = self.ty(to).w();
                ir::mask(v, w.max(1))
            }
            Const::Bin(op, t, a, b) => {
                let w = self.ty(t).w();
                let (a, b) = (self.const_int(a), self.const_int(b));
                ir::mask(
                    match op.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        "xor" => a ^ b,
                        "shl" => a << b,
                        _ => panic!(),
                    },
                    w,
                )
            }
            Const::Bytes(_) | Const::Agg(_) | Const::Splat(..) => panic!("aggregate constant as scalar"),
        }
    }
    fn const_u64(&self, c: &Const) -> u64 {
        self.const_int(c) as u64
    }

    pub fn const_val(&self, c: &Const, t: &T) -> V {
        match (c, t) {
            (Const::Zero, _) | (Const::Undef, _) => self.zero_of(t),
            (Const::Agg(v), T::Agg { fields, .. }) => V::A(Rc::new(v.iter().zip(fields).map(|((_, c), f)| self.const_val(c, &f.1)).collect())),
            (Const::Bytes(b), T::Agg { .. }) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            (Const::Splat(_, c), T::Agg { fields, .. }) => {
                let v = self.const_val(c, &fields[0].1);
                V::A(Rc::new(fields.iter().map(|_| v.clone()).collect()))
            }
            (_, T::Agg { .. }) => panic!("scalar constant for aggregate {:?}", c),
            _ => V::C(self.const_int(c)),
        }
    }
    fn const_bytes(&self, c: &Const, t: &T, out: &mut [u8]) {
        match (c, t) {
            (Const::Zero, _) | (Const::Undef, _) => {}
            (Const::Agg(v), T::Agg { fields, .. }) => {
                for ((_, c), f) in v.iter().zip(fields) {
                    let s = f.1.size() as usize;
                    self.const_bytes(c, &f.1, &mut out[f.0 as usize..f.0 as usize + s]);
                }
            }
            (Const::Bytes(b), _) => out[..b.len()].copy_from_slice(b),
            (Const::Splat(_, c), T::Agg { fields, .. }) => {
                for f in fields {
                    let s = f.1.size() as usize;
                    self.const_bytes(c, &f.1, &mut out[f.0 as usize..f.0 as usize + s]);
                }
            }
            (_, T::Int(w)) => {
                let v = self.const_int(c);
                let b = ((*w + 7) / 8) as usize;
                out[..b].copy_from_slice(&v.to_le_bytes()[..b]);
            }
            _ => panic!("const_bytes {:?}", c),
        }
    }

    pub fn func(&self, idx: u32) -> Option<Rc<CFunc>> {
        if !self.m.funcs[idx as usize].defined {
            return None;
        }
        if let Some(f) = &self.compiled.borrow()[idx as usize] {
            return Some(f.clone());
        }
        let f = Rc::new(self.compile(idx));
        self.compiled.borrow_mut()[idx as usize] = Some(f.clone());
        Some(f)
    }

    fn o(&self, v: &Opnd, t: &T) -> O {
        match v {
            Opnd::Reg(r) => O::R(*r),
            Opnd::K(c) => O::K(if let T::Void = t { V::C(0) } else { self.const_val(c, t) }),
        }
    }
    fn to(&self, v: &TOp) -> (O, Rc<T>) {
        let t = self.ty(&v.ty);
        (self.o(&v.v, &t), t)
    }

    fn compile(&self, idx: u32) -> CFunc {
        let f = &self.m.funcs[idx as usize];
        let bb: HashMap<&str, u32> = f.blocks.iter().enumerate().map(|(i, b)| (b.0.as_str(), i as u32)).collect();
        let lb = |s: &String| -> u32 { *bb.get(s.as_str()).unwrap_or_else(|| panic!("label {} in {}", s, f.name)) };
        let mut blocks = vec![];
        for (_, ins) in &f.blocks {
            let mut b = Block { phis: vec![], ins: vec![] };
            for i in ins {
                let dst = i.dst.unwrap_or(NODST);
                let isvec = |t: &Ty| matches!(t, Ty::Vec(..));
                let elem = |t: &Ty| -> u32 {
                    match t {
                        Ty::Vec(_, e) => self.ty(e).w(),
                        _ => self.ty(t).w(),
                    }
                };
                let c = match &i.i {
                    Inst::Bin { op, .. } if op.starts_with('f') => I::Bad(format!("float {}", op)),
                    Inst::Icmp { pred, .. } if pred.starts_with('f') => I::Bad(format!("float compare {}", pred)),
                    Inst::Phi { ty, inc } => {
                        let t = self.ty(ty);
                        // blocks may list the same predecessor more than once
                        b.phis.push((dst, inc.iter().filter(|(_, l)| bb.contains_key(l.as_str())).map(|(v, l)| (lb(l), self.o(v, &t))).collect()));
                        continue;
                    }
                    Inst::Bin { op, ty, a, b, .. } => {
                        let t = self.ty(ty);
                        let w = elem(ty);
                        let bo = match op.as_str() {
                            "add" => BinOp::Add,
                            "sub" => BinOp::Sub,
                            "mul" => BinOp::Mul,
                            "udiv" => BinOp::UDiv,
                            "sdiv" => BinOp::SDiv,
                            "urem" => BinOp::URem,
                            "srem" => BinOp::SRem,
                            "shl" => BinOp::Shl,
                            "lshr" => BinOp::LShr,
                            "ashr" => BinOp::AShr,
                            "and" => BinOp::And,
                            "or" => BinOp::Or,
                            "xor" => BinOp::Xor,
                            _ => unreachable!("float arithmetic is filtered"),
                        };
                        let (x, y) = (self.o(a, &t), self.o(b, &t));
                        if isvec(ty) {
                            I::VBin(bo, w, x, y)
                        } else {
                            I::Bin(bo, w, x, y)
                        }
                    }
                    Inst::Icmp { pred, ty, a, b } => {
                        let t = self.ty(ty);
                        let p = match pred.as_str() {
                            "eq" => Pred::Eq,
                            "ne" => Pred::Ne,
                            "ult" => Pred::Ult,
                            "ule" => Pred::Ule,
                            "ugt" => Pred::Ugt,
                            "uge" => Pred::Uge,
                            "slt" => Pred::Slt,
                            "sle" => Pred::Sle,
                            "sgt" => Pred::Sgt,
                            "sge" => Pred::Sge,
                            _ => unreachable!("fcmp is filtered"),
                        };
                        let (x, y) = (self.o(a, &t), self.o(b, &t));
                        if isvec(ty) {
                            I::VIcmp(p, elem(ty), x, y)
                        } else {
                            I::Icmp(p, t.w(), x, y)
                        }
                    }
                    Inst::Select { c, a, b } => {
                        let (co, _) = self.to(c);
                        let (x, t) = self.to(a);
                        let (y, _) = self.to(b);
                        if isvec(&c.ty) {
                            I::VSelect(co, elem(&a.ty), x, y)
                        } else {
                            I::Select(co, t.w(), x, y)
                        }
                    }
                    Inst::Br { dst } => I::Br(lb(dst)),
                    Inst::CondBr { c, t, f } => I::CondBr(self.o(c, &T::Int(1)), lb(t), lb(f)),
                    Inst::Switch { ty, v, def, cases } => {
                        let t = self.ty(ty);
                        I::Switch(self.o(v, &t), t.w(), lb(def), cases.iter().map(|(k, l)| (*k, lb(l))).collect())
                    }
                    Inst::Ret { v } => I::Ret(v.as_ref().map(|v| self.to(v).0)),
                    Inst::Unreachable => I::Unreachable,
                    Inst::Call { ret, callee, args, byval, normal } => {
                        if *byval {
                            I::Bad("byval argument".into())
                        } else {
                            let fixed = match callee {
                                Opnd::K(Const::Global(n)) => self.fn_idx.get(n).copied(),
                                _ => None,
                            };
                            if let (None, Opnd::K(Const::Global(n))) = (fixed, callee) {
                                if n == "<inline asm>" {
                                    b.ins.push(CIns { dst, i: I::Bad("inline asm".into()) });
                                    continue;
                                }
                            }
                            I::Call {
                                callee: self.o(callee, &T::Int(64)),
                                fixed,
                                args: args
                                    .iter()
                                    .map(|a| {
                                        let (o, t) = self.to(a);
                                        (o, t.w())
                                    })
                                    .collect(),
                                ret: self.ty(ret),
                                normal: normal.as_ref().map(|l| lb(l)),
                            }
                        }
                    }
                    Inst::Alloca { ty, n, align } => {
                        let t = self.ty(ty);
                        let no = n.as_ref().map(|n| self.to(n).0).unwrap_or(O::K(V::C(1)));
                        I::Alloca(t.size(), no, (*align).max(t.align()))
                    }
                    Inst::Load { ty, p } => I::Load(self.ty(ty), self.o(p, &T::Int(64))),
                    Inst::Store { v, p } => {
                        let (o, t) = self.to(v);
                        I::Store(t, o, self.o(p, &T::Int(64)))
                    }
                    Inst::Gep { ty, p, idx } => {
                        let mut off = 0i64;
                        let mut dynv = vec![];
                        let mut t = self.ty(ty);
                        let mut bad = false;
                        for (k, x) in idx.iter().enumerate() {
                            let (o, it) = self.to(x);
                            let stride;
                            if k == 0 {
                                stride = t.size() as i64;
                                if let O::K(V::C(c)) = &o {
                                    off += sx(*c, it.w()) * stride;
                                } else {
                                    dynv.push((o, it.w(), stride));
                                }
                            } else {
                                let nt = match &*t {
                                    T::Agg { fields, .. } => {
                                        if let O::K(V::C(c)) = &o {
                                            let c = sx(*c, it.w());
                                            if c >= 0 && (c as usize) < fields.len() {
                                                off += fields[c as usize].0 as i64;
                                                fields[c as usize].1.clone()
                                            } else if !fields.is_empty() {
                                                off += c * fields[0].1.size() as i64;
                                                fields[0].1.clone()
                                            } else {
                                                // [0 x T]: element type unknown after lowering
                                                bad = true;
                                                Rc::new(T::Void)
                                            }
                                        } else if !fields.is_empty() {
                                            stride = fields[0].1.size() as i64;
                                            dynv.push((o, it.w(), stride));
                                            fields[0].1.clone()
                                        } else {
                                            bad = true;
                                            Rc::new(T::Void)
                                        }
                                    }
                                    _ => {
                                        bad = true;
                                        Rc::new(T::Void)
                                    }
                                };
                                t = nt;
                            }
                        }
                        if bad {
                            I::Bad("gep shape".into())
                        } else {
                            I::Gep(self.o(p, &T::Int(64)), off, dynv)
                        }
                    }
                    Inst::Cast { op, from, to } => {
                        let (o, ft) = self.to(from);
                        let tt = self.ty(to);
                        if isvec(&from.ty) && op != "bitcast" {
                            let k = match op.as_str() {
                                "trunc" => 0,
                                "zext" => 1,
                                "sext" => 2,
                                _ => 9,
                            };
                            if k == 9 {
                                I::Bad(format!("vector {}", op))
                            } else {
                                I::VCast(k, o, elem(&from.ty), elem(to))
                            }
                        } else {
                            match op.as_str() {
                                "trunc" => I::Trunc(o, ft.w(), tt.w()),
                                "zext" => I::Zext(o, ft.w(), tt.w()),
                                "sext" => I::Sext(o, ft.w(), tt.w()),
                                "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                                    if ft.w() > tt.w() {
                                        I::Trunc(o, ft.w(), tt.w())
                                    } else {
                                        I::Zext(o, ft.w(), tt.w())
                                    }
                                }
                                "bitcast" => I::Bitcast(o, ft, tt),
                                "addrspacecast" => I::Copy(o),
                                _ => I::Bad(format!("float cast {}", op)),
                            }
                        }
                    }
                    Inst::Extract { agg, idx } => I::Extract(self.to(agg).0, idx.clone()),
                    Inst::Insert { agg, v, idx } => {
                        let (o, t) = self.to(agg);
                        I::Insert(o, self.to(v).0, idx.clone(), t)
                    }
                    Inst::ExtractElem { v, i } => I::ExtractElem(self.to(v).0, self.to(i).0),
                    Inst::InsertElem { v, e, i } => {
                        let n = match &v.ty {
                            Ty::Vec(n, _) => *n,
                            _ => 0,
                        };
                        I::InsertElem(self.to(v).0, self.to(e).0, self.to(i).0, n)
                    }
                    Inst::Shuffle { a, b, mask } => {
                        let n = match &a.ty {
                            Ty::Vec(n, _) => *n,
                            _ => 0,
                        };
                        let (mo, _) = self.to(mask);
                        let idx = match mo {
                            O::K(V::A(v)) => v
                                .iter()
                                .map(|x| match x {
                                    V::C(c) => *c as u32,
                                    _ => 0,
                                })
                                .collect(),
                            _ => vec![],
                        };
                        I::Shuffle(self.to(a).0, self.to(b).0, idx, n)
                    }
                    Inst::Freeze { v } => I::Copy(self.to(v).0),
                    Inst::AtomicRmw { op, p, v } => {
                        let (o, t) = self.to(v);
                        I::Rmw(op.clone(), self.o(p, &T::Int(64)), o, t.w())
                    }
                    Inst::CmpXchg { p, c, n } => {
                        let (co, t) = self.to(c);
                        I::CmpXchg(self.o(p, &T::Int(64)), co, self.to(n).0, t.w())
                    }
                    Inst::Fence => I::Fence,
                    Inst::Unsupported(s) => I::Bad(s.clone()),
                };
                b.ins.push(CIns { dst, i: c });
            }
            blocks.push(b);
        }
        CFunc { name: f.name.clone(), id: idx, params: f.params.clone(), nregs: f.nregs, blocks }
    }
}

fn sx(c: u128, w: u32) -> i64 {
    if w >= 64 {
        c as u64 as i64
    } else {
        ((c as u64) << (64 - w)) as i64 >> (64 - w)
    }
}
