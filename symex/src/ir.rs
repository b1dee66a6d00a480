//! Parser for the textual LLVM IR that rustc/opt emit, into a compact form the executor runs.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(bool, Rc<Vec<Ty>>),
    Named(String),
    Func,
    Other,
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Null,
    Undef,
    Zero,
    Global(String),
    Agg(Vec<(Ty, Const)>),
    Bytes(Vec<u8>),
    Gep(Ty, Box<Const>, Vec<Const>),
    Cast(String, Ty, Box<Const>, Ty),
    Bin(String, Ty, Box<Const>, Box<Const>),
    Splat(Ty, Box<Const>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    K(Const),
}

#[derive(Clone, Debug)]
pub struct TOp {
    pub ty: Ty,
    pub v: Opnd,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: String, flags: u8, ty: Ty, a: Opnd, b: Opnd },
    Icmp { pred: String, ty: Ty, a: Opnd, b: Opnd },
    Select { c: TOp, a: TOp, b: TOp },
    Phi { ty: Ty, inc: Vec<(Opnd, String)> },
    Br { dst: String },
    CondBr { c: Opnd, t: String, f: String },
    Switch { ty: Ty, v: Opnd, def: String, cases: Vec<(u128, String)> },
    Ret { v: Option<TOp> },
    Unreachable,
    Call { ret: Ty, callee: Opnd, args: Vec<TOp>, byval: bool, normal: Option<String> },
    Alloca { ty: Ty, n: Option<TOp>, align: u64 },
    Load { ty: Ty, p: Opnd },
    Store { v: TOp, p: Opnd },
    Gep { ty: Ty, p: Opnd, idx: Vec<TOp> },
    Cast { op: String, from: TOp, to: Ty },
    Extract { agg: TOp, idx: Vec<u32> },
    Insert { agg: TOp, v: TOp, idx: Vec<u32> },
    ExtractElem { v: TOp, i: TOp },
    InsertElem { v: TOp, e: TOp, i: TOp },
    Shuffle { a: TOp, b: TOp, mask: TOp },
    Freeze { v: TOp },
    AtomicRmw { op: String, p: Opnd, v: TOp },
    CmpXchg { p: Opnd, c: TOp, n: TOp },
    Fence,
    Unsupported(String),
}

pub struct Ins {
    pub dst: Option<u32>,
    pub i: Inst,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub ret: Ty,
    pub blocks: Vec<(String, Vec<Ins>)>,
    pub nregs: u32,
    pub defined: bool,
    pub weak: bool,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
    pub weak: bool,
}

#[derive(Default)]
pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub aliases: Vec<(String, Const)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String),
    Local(String),
    Glob(String),
    Int(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Meta(String),
    Attr(String),
    P(char),
    Ellipsis,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if i + 1 < s.len() && s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn lex(s: &[u8]) -> Vec<Tok> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < s.len() && s[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let (name, n) = read_name(s, i + 1);
                i = n;
                v.push(if c == b'%' { Tok::Local(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                let st = i + 1;
                i += 1;
                while i < s.len() && (is_id(s[i]) || s[i] == b'\\') {
                    i += 1;
                }
                v.push(Tok::Meta(String::from_utf8_lossy(&s[st..i]).into_owned()));
            }
            b'#' => {
                let st = i + 1;
                i += 1;
                while i < s.len() && is_id(s[i]) {
                    i += 1;
                }
                v.push(Tok::Attr(String::from_utf8_lossy(&s[st..i]).into_owned()));
            }
            b'"' => {
                let st = i + 1;
                i += 1;
                while s[i] != b'"' {
                    i += 1;
                }
                v.push(Tok::Str(unescape(&s[st..i])));
                i += 1;
            }
            b'c' if i + 1 < s.len() && s[i + 1] == b'"' => {
                let st = i + 2;
                i += 2;
                while s[i] != b'"' {
                    i += 1;
                }
                v.push(Tok::CStr(unescape(&s[st..i])));
                i += 1;
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'.' || s[i] == b'+' || (s[i] == b'-' && s[i - 1] == b'e')) {
                    i += 1;
                }
                v.push(Tok::Int(String::from_utf8_lossy(&s[st..i]).into_owned()));
            }
            b'.' if s[i..].starts_with(b"...") => {
                v.push(Tok::Ellipsis);
                i += 3;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < s.len() && is_id(s[i]) {
                    i += 1;
                }
                v.push(Tok::Word(String::from_utf8_lossy(&s[st..i]).into_owned()));
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

fn read_name(s: &[u8], mut i: usize) -> (String, usize) {
    if i < s.len() && s[i] == b'"' {
        let st = i + 1;
        i += 1;
        while s[i] != b'"' {
            i += 1;
        }
        (String::from_utf8_lossy(&unescape(&s[st..i])).into_owned(), i + 1)
    } else {
        let st = i;
        while i < s.len() && is_id(s[i]) {
            i += 1;
        }
        (String::from_utf8_lossy(&s[st..i]).into_owned(), i)
    }
}

pub struct P<'a> {
    t: &'a [Tok],
    i: usize,
    regs: HashMap<String, u32>,
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "metadata" | "label" | "token" | "x86_fp80" | "fp128" | "bfloat")
        || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl<'a> P<'a> {
    fn new(t: &'a [Tok]) -> Self {
        P { t, i: 0, regs: HashMap::new() }
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("parse: expected {:?} at {:?} in {:?}", c, self.peek(), &self.t[self.i.saturating_sub(12)..(self.i + 4).min(self.t.len())]);
        }
    }
    fn word(&self) -> Option<&str> {
        match self.peek() {
            Some(Tok::Word(w)) => Some(w.as_str()),
            _ => None,
        }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.word() == Some(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => is_type_word(w),
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(_)) => true,
            _ => false,
        }
    }
    /// skip attribute tokens before a type
    fn skip_attrs_to_type(&mut self) {
        while !self.at_type() {
            match self.peek() {
                None => return,
                Some(Tok::P('(')) => self.skip_parens(),
                Some(_) => {
                    self.i += 1;
                }
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let mut base = match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.word() == Some("addrspace") {
                        self.i += 1;
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "metadata" | "label" | "token" | "x86_fp80" | "fp128" => Ty::Other,
                _ if is_type_word(&w) => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("parse: type {:?}", w),
            },
            Tok::Local(n) => Ty::Named(n),
            Tok::P('[') => {
                let n = self.int_u64();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    let t = self.struct_body();
                    self.expect('>');
                    Ty::Struct(true, Rc::new(t))
                } else {
                    let n = self.int_u64();
                    assert!(self.eat_word("x"));
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P('{') => {
                self.i -= 1;
                Ty::Struct(false, Rc::new(self.struct_body()))
            }
            t => panic!("parse: type tok {:?}", t),
        };
        if self.is_p('(') && !matches!(base, Ty::Ptr) || (self.is_p('(') && self.looks_fn_ty()) {
            self.skip_parens();
            base = Ty::Func;
        }
        base
    }
    fn looks_fn_ty(&self) -> bool {
        // `ptr (` only occurs as a function type
        true
    }
    fn struct_body(&mut self) -> Vec<Ty> {
        self.expect('{');
        let mut v = vec![];
        while !self.eat('}') {
            v.push(self.ty());
            self.eat(',');
        }
        v
    }
    fn int_u64(&mut self) -> u64 {
        match self.next() {
            Tok::Int(s) => s.parse().unwrap(),
            t => panic!("parse: int {:?}", t),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn is_value_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Local(_)) | Some(Tok::Glob(_)) | Some(Tok::Int(_)) | Some(Tok::CStr(_)) => true,
            Some(Tok::P(c)) => matches!(c, '[' | '{' | '<'),
            Some(Tok::Meta(_)) => true,
            Some(Tok::Word(w)) => matches!(
                w.as_str(),
                "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "none" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "trunc" | "sub" | "add" | "xor" | "mul" | "shl" | "bitcast" | "addrspacecast" | "splat" | "blockaddress" | "dso_local_equivalent" | "no_cfi" | "asm"
            ),
            _ => false,
        }
    }
    fn skip_param_attrs(&mut self) -> bool {
        let mut byval = false;
        while !self.is_value_start() {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if w == "byval" {
                        byval = true;
                    }
                    let is_align = w == "align";
                    self.i += 1;
                    if is_align {
                        if self.is_p('(') {
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    } else if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                Some(Tok::Str(_)) => self.i += 1,
                Some(Tok::P('=')) => self.i += 1,
                t => panic!("parse: param attr {:?} near {:?}", t, &self.t[self.i.saturating_sub(10)..(self.i + 4).min(self.t.len())]),
            }
        }
        byval
    }
    fn konst(&mut self, ty: &Ty) -> Const {
        match self.next() {
            Tok::Int(s) => {
                if let Ty::Float(w) = ty {
                    // floats: kept as raw bits of a double when hexadecimal; only their storage matters here
                    if let Some(h) = s.strip_prefix("0x") {
                        let b = u64::from_str_radix(h, 16).unwrap_or(0);
                        return Const::Int(if *w == 32 { (f64::from_bits(b) as f32).to_bits() as u128 } else { b as u128 });
                    }
                    let f: f64 = s.parse().unwrap_or(0.0);
                    return Const::Int(if *w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 });
                }
                let w = if let Ty::Int(w) = ty { *w } else { 64 };
                let v = if let Some(n) = s.strip_prefix('-') {
                    (n.parse::<u128>().expect("int")).wrapping_neg()
                } else {
                    match s.parse::<u128>() {
                        Ok(v) => v,
                        Err(_) => panic!("parse: int const {:?}", s),
                    }
                };
                Const::Int(mask(v, w))
            }
            Tok::Word(w) => match w.as_str() {
                "null" | "none" => Const::Null,
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let c = self.konst(&t);
                    self.expect(')');
                    Const::Splat(t, Box::new(c))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                        // inrange(...) attr
                        if matches!(&self.t[self.i - 1], Tok::Word(w) if w == "inrange") {
                            self.skip_parens();
                        }
                    }
                    self.expect('(');
                    let t = self.ty();
                    self.expect(',');
                    let pt = self.ty();
                    let p = self.konst(&pt);
                    let mut idx = vec![];
                    while self.eat(',') {
                        let it = self.ty();
                        idx.push(self.konst(&it));
                    }
                    self.expect(')');
                    Const::Gep(t, Box::new(p), idx)
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "trunc" | "bitcast" | "addrspacecast" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    let c = self.konst(&t);
                    assert!(self.eat_word("to"));
                    let to = self.ty();
                    self.expect(')');
                    Const::Cast(w, t, Box::new(c), to)
                }
                "sub" | "add" | "xor" | "mul" | "shl" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.expect(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.expect(')');
                    Const::Bin(w, t, Box::new(a), Box::new(b))
                }
                "asm" => {
                    // inline assembly callee: skip to the argument list
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    Const::Global("<inline asm>".into())
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(ty),
                _ => panic!("parse: const word {:?}", w),
            },
            Tok::Glob(g) => Const::Global(g),
            Tok::CStr(b) => Const::Bytes(b),
            Tok::P('[') => {
                let mut v = vec![];
                while !self.eat(']') {
                    let t = self.ty();
                    let c = self.konst(&t);
                    v.push((t, c));
                    self.eat(',');
                }
                Const::Agg(v)
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat('}') {
                    let t = self.ty();
                    let c = self.konst(&t);
                    v.push((t, c));
                    self.eat(',');
                }
                Const::Agg(v)
            }
            Tok::P('<') => {
                let packed = self.eat('{');
                let mut v = vec![];
                loop {
                    if packed && self.eat('}') {
                        self.expect('>');
                        break;
                    }
                    if !packed && self.eat('>') {
                        break;
                    }
                    let t = self.ty();
                    let c = self.konst(&t);
                    v.push((t, c));
                    self.eat(',');
                }
                Const::Agg(v)
            }
            Tok::Meta(_) => {
                // metadata operand; skip a following (...) or {...}
                if self.is_p('(') {
                    self.skip_parens();
                } else if self.is_p('{') {
                    let mut d = 0;
                    loop {
                        match self.next() {
                            Tok::P('{') => d += 1,
                            Tok::P('}') => {
                                d -= 1;
                                if d == 0 {
                                    break;
                                }
                            }
                            _ => {}
                        }
                    }
                }
                Const::Undef
            }
            t => panic!("parse: const {:?} near {:?}", t, &self.t[self.i.saturating_sub(10)..(self.i + 4).min(self.t.len())]),
        }
    }
    fn val(&mut self, ty: &Ty) -> Opnd {
        if let Some(Tok::Local(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Opnd::Reg(self.reg(&n));
        }
        Opnd::K(self.konst(ty))
    }
    fn tval(&mut self) -> TOp {
        let ty = self.ty();
        self.skip_param_attrs();
        let v = self.val(&ty);
        TOp { ty, v }
    }
    fn label(&mut self) -> String {
        assert!(self.eat_word("label"), "label at {:?}", self.peek());
        match self.next() {
            Tok::Local(n) => n,
            t => panic!("parse: label {:?}", t),
        }
    }
    fn skip_flags(&mut self) -> u8 {
        let mut f = 0;
        while let Some(w) = self.word() {
            match w {
                "nuw" => f |= 1,
                "nsw" => f |= 2,
                "exact" => f |= 4,
                "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => {}
                _ => break,
            }
            self.i += 1;
        }
        f
    }
    fn inst(&mut self) -> Inst {
        let w = match self.next() {
            Tok::Word(w) => w,
            t => panic!("parse: inst {:?}", t),
        };
        match w.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let flags = self.skip_flags();
                let ty = self.ty();
                let a = self.val(&ty);
                self.expect(',');
                let b = self.val(&ty);
                Inst::Bin { op: w, flags, ty, a, b }
            }
            "fneg" => {
                self.skip_flags();
                let v = self.tval();
                Inst::Cast { op: "fneg".into(), to: v.ty.clone(), from: v }
            }
            "icmp" | "fcmp" => {
                self.skip_flags();
                let pred = match self.next() {
                    Tok::Word(p) => p,
                    t => panic!("{:?}", t),
                };
                let ty = self.ty();
                let a = self.val(&ty);
                self.expect(',');
                let b = self.val(&ty);
                if w == "fcmp" {
                    return Inst::Icmp { pred: format!("f{}", pred), ty, a, b };
                }
                Inst::Icmp { pred, ty, a, b }
            }
            "select" => {
                self.skip_flags();
                let c = self.tval();
                self.expect(',');
                let a = self.tval();
                self.expect(',');
                let b = self.tval();
                Inst::Select { c, a, b }
            }
            "phi" => {
                self.skip_flags();
                let ty = self.ty();
                let mut inc = vec![];
                loop {
                    self.expect('[');
                    let v = self.val(&ty);
                    self.expect(',');
                    let l = match self.next() {
                        Tok::Local(n) => n,
                        t => panic!("{:?}", t),
                    };
                    self.expect(']');
                    inc.push((v, l));
                    if !self.eat(',') || !self.is_p('[') {
                        break;
                    }
                }
                Inst::Phi { ty, inc }
            }
            "br" => {
                if self.word() == Some("label") {
                    let dst = self.label();
                    Inst::Br { dst }
                } else {
                    let t = self.ty();
                    let c = self.val(&t);
                    self.expect(',');
                    let a = self.label();
                    self.expect(',');
                    let b = self.label();
                    Inst::CondBr { c, t: a, f: b }
                }
            }
            "switch" => {
                let ty = self.ty();
                let v = self.val(&ty);
                self.expect(',');
                let def = self.label();
                self.expect('[');
                let mut cases = vec![];
                while !self.eat(']') {
                    let t = self.ty();
                    let k = match self.konst(&t) {
                        Const::Int(k) => k,
                        c => panic!("{:?}", c),
                    };
                    self.expect(',');
                    let l = self.label();
                    cases.push((k, l));
                }
                Inst::Switch { ty, v, def, cases }
            }
            "ret" => {
                let ty = self.ty();
                if ty == Ty::Void {
                    Inst::Ret { v: None }
                } else {
                    let v = self.val(&ty);
                    Inst::Ret { v: Some(TOp { ty, v }) }
                }
            }
            "unreachable" | "resume" => Inst::Unreachable,
            "tail" | "musttail" | "notail" => self.inst(),
            "call" | "invoke" => {
                self.skip_attrs_to_type();
                let mut ret = self.ty();
                if ret == Ty::Func {
                    ret = Ty::Other; // vararg callee: the executor hooks give the value its type
                }
                let callee = self.val(&Ty::Ptr);
                self.expect('(');
                let mut args = vec![];
                let mut byval = false;
                while !self.eat(')') {
                    let ty = self.ty();
                    if ty == Ty::Other {
                        // metadata/token operand
                        let mut d = 0;
                        loop {
                            match self.peek() {
                                Some(Tok::P('(')) => d += 1,
                                Some(Tok::P(')')) => {
                                    if d == 0 {
                                        break;
                                    }
                                    d -= 1
                                }
                                Some(Tok::P(',')) if d == 0 => break,
                                _ => {}
                            }
                            self.i += 1;
                        }
                        args.push(TOp { ty, v: Opnd::K(Const::Undef) });
                    } else {
                        byval |= self.skip_param_attrs();
                        let v = self.val(&ty);
                        args.push(TOp { ty, v });
                    }
                    self.eat(',');
                }
                let mut normal = None;
                if w == "invoke" {
                    while self.word() != Some("to") {
                        self.i += 1;
                    }
                    self.i += 1;
                    normal = Some(self.label());
                }
                Inst::Call { ret, callee, args, byval, normal }
            }
            "alloca" => {
                self.eat_word("inalloca");
                let ty = self.ty();
                let mut n = None;
                let mut align = 1;
                while self.eat(',') {
                    if self.eat_word("align") {
                        align = self.int_u64();
                    } else if self.at_type() {
                        n = Some(self.tval());
                    } else {
                        break;
                    }
                }
                Inst::Alloca { ty, n, align }
            }
            "load" => {
                self.eat_word("atomic");
                self.eat_word("volatile");
                let ty = self.ty();
                self.expect(',');
                let pt = self.ty();
                let p = self.val(&pt);
                Inst::Load { ty, p }
            }
            "store" => {
                self.eat_word("atomic");
                self.eat_word("volatile");
                let v = self.tval();
                self.expect(',');
                let pt = self.ty();
                let p = self.val(&pt);
                Inst::Store { v, p }
            }
            "getelementptr" => {
                self.skip_flags();
                let ty = self.ty();
                self.expect(',');
                let pt = self.ty();
                let p = self.val(&pt);
                if matches!(pt, Ty::Vec(..)) {
                    return Inst::Unsupported("vector gep".into());
                }
                let mut idx = vec![];
                while self.eat(',') {
                    if !self.at_type() {
                        break;
                    }
                    idx.push(self.tval());
                }
                Inst::Gep { ty, p, idx }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" => {
                self.skip_flags();
                let from = self.tval();
                assert!(self.eat_word("to"));
                let to = self.ty();
                Inst::Cast { op: w, from, to }
            }
            "extractvalue" => {
                let agg = self.tval();
                let mut idx = vec![];
                while self.eat(',') {
                    if let Some(Tok::Int(_)) = self.peek() {
                        idx.push(self.int_u64() as u32);
                    } else {
                        break;
                    }
                }
                Inst::Extract { agg, idx }
            }
            "insertvalue" => {
                let agg = self.tval();
                self.expect(',');
                let v = self.tval();
                let mut idx = vec![];
                while self.eat(',') {
                    if let Some(Tok::Int(_)) = self.peek() {
                        idx.push(self.int_u64() as u32);
                    } else {
                        break;
                    }
                }
                Inst::Insert { agg, v, idx }
            }
            "extractelement" => {
                let v = self.tval();
                self.expect(',');
                let i = self.tval();
                Inst::ExtractElem { v, i }
            }
            "insertelement" => {
                let v = self.tval();
                self.expect(',');
                let e = self.tval();
                self.expect(',');
                let i = self.tval();
                Inst::InsertElem { v, e, i }
            }
            "shufflevector" => {
                let a = self.tval();
                self.expect(',');
                let b = self.tval();
                self.expect(',');
                let mask = self.tval();
                Inst::Shuffle { a, b, mask }
            }
            "freeze" => Inst::Freeze { v: self.tval() },
            "atomicrmw" => {
                self.eat_word("volatile");
                let op = match self.next() {
                    Tok::Word(o) => o,
                    t => panic!("{:?}", t),
                };
                let pt = self.ty();
                let p = self.val(&pt);
                self.expect(',');
                let v = self.tval();
                Inst::AtomicRmw { op, p, v }
            }
            "cmpxchg" => {
                self.eat_word("weak");
                self.eat_word("volatile");
                let pt = self.ty();
                let p = self.val(&pt);
                self.expect(',');
                let c = self.tval();
                self.expect(',');
                let n = self.tval();
                Inst::CmpXchg { p, c, n }
            }
            "fence" => Inst::Fence,
            "landingpad" | "cleanuppad" | "catchpad" | "catchswitch" | "cleanupret" | "catchret" | "indirectbr" | "callbr" | "va_arg" => Inst::Unsupported(w),
            _ => panic!("parse: instruction {:?}", w),
        }
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

/// Splits a line-oriented .ll file and parses it.
pub fn parse(src: &str) -> Module {
    let mut m = Module::default();
    let mut lines = src.lines().peekable();
    while let Some(l) = lines.next() {
        let b = l.as_bytes();
        if b.is_empty() {
            continue;
        }
        match b[0] {
            b'%' => {
                // named type
                let t = lex(b);
                let mut p = P::new(&t);
                if let Tok::Local(n) = p.next() {
                    p.expect('=');
                    p.eat_word("type");
                    if p.eat_word("opaque") {
                        m.types.insert(n, Ty::Other);
                    } else {
                        let ty = p.ty();
                        m.types.insert(n, ty);
                    }
                }
            }
            b'@' => {
                let t = lex(b);
                let mut p = P::new(&t);
                let name = match p.next() {
                    Tok::Glob(n) => n,
                    _ => unreachable!(),
                };
                p.expect('=');
                let mut external = false;
                let mut weak = false;
                let mut constant = false;
                let mut alias = false;
                loop {
                    match p.peek() {
                        Some(Tok::Word(w)) => match w.as_str() {
                            "external" => {
                                external = true;
                                p.i += 1
                            }
                            "extern_weak" => {
                                external = true;
                                weak = true;
                                p.i += 1
                            }
                            "constant" => {
                                constant = true;
                                p.i += 1;
                                break;
                            }
                            "global" => {
                                p.i += 1;
                                break;
                            }
                            "alias" | "ifunc" => {
                                alias = true;
                                p.i += 1;
                                break;
                            }
                            "addrspace" | "thread_local" => {
                                p.i += 1;
                                if p.is_p('(') {
                                    p.skip_parens();
                                }
                            }
                            _ => p.i += 1,
                        },
                        _ => p.i += 1,
                    }
                }
                if alias {
                    let _ = p.ty();
                    p.eat(',');
                    let pt = p.ty();
                    let c = p.konst(&pt);
                    m.aliases.push((name, c));
                    continue;
                }
                let ty = p.ty();
                let init = if external { None } else { Some(p.konst(&ty)) };
                let mut align = 1;
                while p.i < p.t.len() {
                    if p.eat_word("align") {
                        align = p.int_u64();
                    } else {
                        p.i += 1;
                    }
                }
                m.globals.push(Global { name, ty, init, constant, align, weak });
            }
            b'd' if l.starts_with("declare") => {
                let t = lex(b);
                let mut p = P::new(&t);
                p.i = 1;
                let weak = t.iter().any(|x| matches!(x, Tok::Word(w) if w == "extern_weak"));
                p.skip_attrs_to_type();
                let ret = p.ty_noparen();
                let name = match p.next() {
                    Tok::Glob(n) => n,
                    t => panic!("declare {:?}: {}", t, l),
                };
                m.funcs.push(Func { name, params: vec![], ret, blocks: vec![], nregs: 0, defined: false, weak });
            }
            b'd' if l.starts_with("define") => {
                let t = lex(b);
                let mut p = P::new(&t);
                p.i = 1;
                p.skip_attrs_to_type();
                let ret = p.ty_noparen();
                let name = match p.next() {
                    Tok::Glob(n) => n,
                    t => panic!("define {:?}: {}", t, l),
                };
                p.expect('(');
                let mut params = vec![];
                let mut anon = 0u32;
                while !p.eat(')') {
                    if let Some(Tok::Ellipsis) = p.peek() {
                        p.i += 1;
                        continue;
                    }
                    let _ = p.ty();
                    // attributes, then the parameter name
                    loop {
                        match p.peek() {
                            Some(Tok::Local(_)) => break,
                            Some(Tok::P(',')) | Some(Tok::P(')')) => break,
                            Some(Tok::P('(')) => p.skip_parens(),
                            _ => p.i += 1,
                        }
                    }
                    if let Some(Tok::Local(n)) = p.peek() {
                        let n = n.clone();
                        p.i += 1;
                        let r = p.reg(&n);
                        params.push(r);
                    } else {
                        let n = format!("{}", anon);
                        let r = p.reg(&n);
                        params.push(r);
                    }
                    anon += 1;
                    p.eat(',');
                }
                let mut regs = std::mem::take(&mut p.regs);
                let mut blocks: Vec<(String, Vec<Ins>)> = vec![];
                // the entry block may be unnamed: its name is the next free number
                let mut first = true;
                loop {
                    let l = lines.next().expect("eof in function");
                    if l == "}" {
                        break;
                    }
                    let lb = l.as_bytes();
                    if lb.is_empty() {
                        continue;
                    }
                    if lb[0] != b' ' {
                        // label line
                        let (n, _) = if lb[0] == b'"' { read_name(lb, 0) } else { read_name(lb, 0) };
                        blocks.push((n, vec![]));
                        first = false;
                        continue;
                    }
                    if first {
                        blocks.push((format!("{}", regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count()), vec![]));
                        first = false;
                    }
                    let tl = l.trim_start();
                    if tl.starts_with('#') || tl.starts_with(';') {
                        continue;
                    }
                    // multi-line: switch and invoke/landingpad
                    let mut full = l.to_string();
                    if tl.starts_with("switch ") || tl.contains(" = switch ") {
                        while !full.contains(']') {
                            full.push('\n');
                            full.push_str(lines.next().unwrap());
                        }
                    } else if tl.starts_with("invoke ") || tl.contains("= invoke ") {
                        full.push('\n');
                        full.push_str(lines.next().unwrap());
                    } else if tl.contains("= landingpad ") {
                        while let Some(nl) = lines.peek() {
                            let nt = nl.trim_start();
                            if nt.starts_with("cleanup") || nt.starts_with("catch") || nt.starts_with("filter") {
                                lines.next();
                            } else {
                                break;
                            }
                        }
                    }
                    let toks = lex(full.as_bytes());
                    let mut ip = P { t: &toks, i: 0, regs };
                    let mut dst = None;
                    if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (toks.first(), toks.get(1)) {
                        let n = n.clone();
                        dst = Some(ip.reg(&n));
                        ip.i = 2;
                    }
                    let i = ip.inst();
                    regs = ip.regs;
                    blocks.last_mut().unwrap().1.push(Ins { dst, i });
                }
                let nregs = regs.len() as u32;
                m.funcs.push(Func { name, params, ret, blocks, nregs, defined: true, weak: false });
            }
            _ => {}
        }
    }
    m
}

impl<'a> P<'a> {
    fn ty_noparen(&mut self) -> Ty {
        // return type of a define/declare: never followed by '(' directly
        self.ty()
    }
}
