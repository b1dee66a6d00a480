//! Path-wise symbolic execution.
use crate::code::*;
use crate::expr::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const NOSYM: E = u32::MAX;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub heap: bool,
    pub ro: bool,
    pub conc: Vec<u8>,
    pub sym: Option<Vec<E>>,
}
impl Obj {
    fn new(size: u64, heap: bool) -> Obj {
        Obj { size, heap, ro: false, conc: vec![0; size as usize], sym: None }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<CFunc>,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
    pub dst: u32,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct App {
    pub tag: u32,
    pub pre: Rc<Vec<E>>, // bytes
    pub out: Rc<Vec<E>>, // bytes
    pub conc: bool,
    /// compressions: how many blocks precede this one, where the chain is known
    pub depth: Option<u32>,
    /// compressions: the output is the state of a later one
    pub inner: bool,
}

#[derive(Clone)]
pub struct Obs {
    pub label: String,
    pub bytes: Vec<E>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub next: u64,
    pub pc: Vec<E>,
    pub known: FxMap<E, u128>,
    pub model: Rc<Model>,
    pub inputs: Vec<E>, // bytes in consumption order
    pub nin: u32,
    pub uf: Rc<Vec<App>>,
    pub obs: Rc<Vec<Obs>>,
    pub reached: Rc<BTreeSet<String>>,
    pub icount: u64,
    pub alloc_limit: u64,
    pub live_alloc: u64,
    pub forks: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub site: String,
    pub input: Vec<u8>,
}

pub enum Stop {
    Done,           // harness returned
    Kill,           // assumption false / path infeasible
    Viol(String, String),
    Err(String),
}
type R<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub killed: u64,
    pub errors: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub instrs: u64,
    pub forks: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub reached: BTreeMap<String, u64>,
    pub witness: BTreeMap<String, Vec<u8>>,
    pub samples: Vec<(Vec<u8>, Vec<(String, Vec<u8>)>, Vec<String>)>,
    pub funcs: BTreeSet<u32>,
    pub max_pc: usize,
    pub hash_apps: u64,
}

pub struct Exec {
    pub p: Rc<Prog>,
    pub sol: Solver,
    pub globals: BTreeMap<u64, Rc<Obj>>,
    pub work: Vec<State>,
    pub rep: Report,
    pub max_instr: u64,
    pub max_paths: u64,
    pub deadline: Option<std::time::Instant>,
    /// milliseconds since `start` at which a worker found the first violation (shared), 0 if none
    pub found: *const std::sync::atomic::AtomicUsize,
    pub start: std::time::Instant,
    pub grace: usize,
    pub hooks: HashMap<u32, u32>, // function -> hook id
    invar: FxMap<(u32, u32, u32), u32>,
    pub viol_keys: BTreeSet<String>,
    pub sample_every: u64,
    pub max_samples: usize,
    pub param: u64,
}

pub fn v_expr(v: &V, w: u32) -> E {
    match v {
        V::C(k) => konst(*k, w),
        V::S(e) => *e,
        V::A(_) => panic!("aggregate as scalar"),
    }
}
pub fn mkv(e: E) -> V {
    match as_const(e) {
        Some(k) => V::C(k),
        None => V::S(e),
    }
}
#[inline]
fn msk(v: u128, w: u32) -> u128 {
    m(v, w)
}
#[inline]
fn sxx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl Exec {
    pub fn new(p: Rc<Prog>, rlimit: u32) -> Exec {
        let mut globals = BTreeMap::new();
        for g in &p.globals {
            globals.insert(g.addr, Rc::new(Obj { size: g.size, heap: false, ro: g.constant, conc: g.bytes.clone(), sym: None }));
        }
        let mut hooks = HashMap::new();
        for (i, f) in p.m.funcs.iter().enumerate() {
            if let Some(h) = crate::hooks::hook_for(&f.name, f.defined) {
                hooks.insert(i as u32, h);
            }
        }
        Exec {
            p,
            sol: Solver::new(rlimit),
            globals,
            work: vec![],
            rep: Default::default(),
            max_instr: 50_000_000,
            max_paths: u64::MAX,
            deadline: None,
            found: Box::leak(Box::new(std::sync::atomic::AtomicUsize::new(0))),
            start: std::time::Instant::now(),
            grace: 20_000,
            hooks,
            invar: Default::default(),
            viol_keys: Default::default(),
            sample_every: 1,
            max_samples: 8,
            param: 0,
        }
    }

    pub fn initial(&self, entry: &str) -> State {
        let idx = *self.p.fn_idx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let f = self.p.func(idx).expect("entry undefined");
        let fr = Frame { regs: vec![V::C(0); f.nregs as usize], f, bb: 0, ip: 0, allocas: vec![], dst: NODST, normal: None };
        State {
            frames: vec![Rc::new(fr)],
            mem: BTreeMap::new(),
            next: HEAP_BASE,
            pc: vec![],
            known: Default::default(),
            model: Rc::new(Model::default()),
            inputs: vec![],
            nin: 0,
            uf: Rc::new(vec![]),
            obs: Rc::new(vec![]),
            reached: Rc::new(BTreeSet::new()),
            icount: 0,
            alloc_limit: 1 << 26,
            live_alloc: 0,
            forks: 0,
        }
    }

    // ---------- decisions ----------

    /// Decide a condition on this path; forks the other side into the work list when both are feasible.
    /// The forked state has the same instruction pointer: it re-executes the current instruction.
    pub fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = as_const(c) {
            return Ok(k == 1);
        }
        if let Some(k) = st.known.get(&c) {
            return Ok(*k == 1);
        }
        let n = node(c);
        if n.op == Op::Not {
            return Ok(!self.branch(st, n.a)?);
        }
        let here = st.model.holds(c);
        let other = if here { not(c) } else { c };
        if std::env::var("SYMEX_BR").is_ok() {
            let f = st.frames.last().unwrap();
            eprintln!("branch in {} on {}", f.f.name, show(c, 6));
        }
        match self.sol.check(&st.pc, &[other], &st.model) {
            Res::Unsat => {
                st.known.insert(c, here as u128);
                Self::learn(st, c, konst(here as u128, 1));
                Ok(here)
            }
            Res::Sat(m2) => {
                let mut o = st.clone();
                Self::assert_cond(&mut o, other);
                Self::learn(&mut o, c, konst(!here as u128, 1));
                o.model = m2;
                o.forks += 1;
                self.rep.forks += 1;
                self.work.push(o);
                Self::assert_cond(st, not(other));
                Self::learn(st, c, konst(here as u128, 1));
                st.forks += 1;
                Ok(here)
            }
            Res::Unknown => Err(Stop::Err("solver gave no answer for a branch".to_string())),
        }
    }

    /// use a decided subterm in the registers of the running function
    fn learn(st: &mut State, what: E, val: E) {
        let vs = varset(what);
        let top = match st.frames.last_mut() {
            Some(t) => t,
            None => return,
        };
        let mut new = vec![];
        for (i, r) in top.regs.iter().enumerate() {
            if let V::S(e) = r {
                let x = varset(*e);
                if x.len() < vs.len() || !vs.iter().all(|v| x.binary_search(v).is_ok()) {
                    continue;
                }
                let y = subst(*e, what, val, 5);
                if y != *e {
                    new.push((i, mkv(y)));
                }
            }
        }
        if !new.is_empty() {
            let f = Rc::make_mut(top);
            for (i, v) in new {
                f.regs[i] = v;
            }
        }
    }

    fn assert_cond(st: &mut State, c: E) {
        let n = node(c);
        if n.op == Op::And {
            Self::assert_cond(st, n.a);
            Self::assert_cond(st, n.b);
            return;
        }
        if as_const(c) == Some(1) {
            return;
        }
        st.pc.push(c);
        if n.op == Op::Not {
            st.known.insert(n.a, 0);
        } else {
            st.known.insert(c, 1);
            if n.op == Op::Eq {
                if let Some(k) = as_const(n.b) {
                    st.known.insert(n.a, k);
                }
            }
        }
    }

    pub fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if let Some(k) = as_const(c) {
            return if k == 1 { Ok(()) } else { Err(Stop::Kill) };
        }
        if !st.model.holds(c) {
            match self.sol.check(&st.pc, &[c], &st.model) {
                Res::Sat(m2) => st.model = m2,
                Res::Unsat => return Err(Stop::Kill),
                Res::Unknown => return Err(Stop::Err("solver gave no answer for an assumption".into())),
            }
        }
        Self::assert_cond(st, c);
        Ok(())
    }

    /// Assertion: a counterexample is recorded, then the path continues under the condition.
    pub fn check_prop(&mut self, st: &mut State, c: E, msg: &str) -> R<()> {
        self.rep.asserts += 1;
        if as_const(c) == Some(1) {
            return Ok(());
        }
        self.rep.assert_queries += 1;
        if !st.model.holds(c) {
            let md = st.model.clone();
            self.violation(st, "check", msg, &md, &[not(c)]);
        } else {
            match self.sol.check(&st.pc, &[not(c)], &st.model) {
                Res::Unsat => {
                    st.known.insert(c, 1);
                    return Ok(());
                }
                Res::Sat(md) => self.violation(st, "check", msg, &md, &[not(c)]),
                Res::Unknown => return Err(Stop::Err(format!("solver gave no answer for assertion \"{}\"", msg))),
            }
        }
        self.assume(st, c)
    }

    pub fn violation(&mut self, st: &State, kind: &str, msg: &str, md: &Rc<Model>, extra: &[E]) {
        let site = self.trace(st);
        let key = format!("{}|{}", kind, msg);
        let n = self.rep.violations.iter().filter(|v| format!("{}|{}", v.kind, v.msg) == key).count();
        self.viol_keys.insert(key);
        let ms = (self.start.elapsed().as_millis() as usize).max(1);
        let _ = unsafe { (*self.found).compare_exchange(0, ms, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst) };
        if n >= 6 {
            return;
        }
        // prefer a model in which hash outputs are the real digests
        let md = crate::hooks::realise(self, st, md, extra).unwrap_or_else(|| md.clone());
        let input = st.inputs.iter().map(|e| md.eval(*e) as u8).collect();
        self.rep.violations.push(Violation { kind: kind.into(), msg: msg.into(), site, input });
    }

    pub fn trace(&self, st: &State) -> String {
        let mut s = vec![];
        for f in st.frames.iter().rev().take(8) {
            s.push(crate::hooks::demangle(&f.f.name));
        }
        s.join(" < ")
    }

    /// Make a value concrete, forking over every feasible value.
    pub fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(k) => Ok(*k as u64),
            V::A(_) => Err(Stop::Err("aggregate as address".into())),
            V::S(e) => {
                if let Some(k) = st.known.get(e) {
                    return Ok(*k as u64);
                }
                let e = *e;
                let n = node(e);
                if n.op == Op::Ite {
                    // resolve the condition instead of enumerating
                    let b = self.branch(st, n.a)?;
                    let x = if b { n.b } else { n.c };
                    let r = self.conc(st, &mkv(x))?;
                    st.known.insert(e, r as u128);
                    return Ok(r);
                }
                let k = st.model.eval(e);
                let c = eq(e, konst(k, n.w));
                if !self.branch(st, c)? {
                    unreachable!("model value not taken");
                }
                st.known.insert(e, k);
                Self::learn(st, e, konst(k, n.w));
                Ok(k as u64)
            }
        }
    }

    // ---------- memory ----------

    fn find<'a>(&'a self, st: &'a State, addr: u64) -> Option<(u64, &'a Rc<Obj>)> {
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr < b + o.size.max(1) {
                return Some((*b, o));
            }
        }
        if addr >= GLOBAL_BASE && addr < HEAP_BASE {
            if let Some((b, o)) = self.globals.range(..=addr).next_back() {
                if addr < b + o.size.max(1) {
                    // a mutated copy would have been found in st.mem
                    return Some((*b, o));
                }
            }
        }
        None
    }

    fn locate<'a>(&'a self, st: &'a State, addr: u64, len: u64, what: &str) -> R<(u64, &'a Rc<Obj>)> {
        match self.find(st, addr) {
            Some((b, o)) if addr + len <= b + o.size => Ok((b, o)),
            Some((b, o)) => Err(Stop::Viol("memory".into(), format!("{} of {} bytes at offset {} of an object of {} bytes", what, len, addr - b, o.size))),
            None => Err(Stop::Viol("memory".into(), format!("{} of {} bytes at invalid address", what, len))),
        }
    }

    pub fn obj_mut<'a>(&'a self, st: &'a mut State, addr: u64, len: u64) -> R<(u64, &'a mut Obj)> {
        let b = {
            let (b, o) = self.locate(st, addr, len, "write")?;
            if o.ro {
                return Err(Stop::Viol("memory".into(), "write to constant".into()));
            }
            b
        };
        if !st.mem.contains_key(&b) {
            let o = self.globals[&b].clone();
            st.mem.insert(b, o);
        }
        let o = st.mem.get_mut(&b).unwrap();
        Ok((b, Rc::make_mut(o)))
    }

    pub fn read_byte_exprs(&self, st: &State, addr: u64, len: u64) -> R<Vec<E>> {
        if len == 0 {
            return Ok(vec![]);
        }
        let (b, o) = self.locate(st, addr, len, "read")?;
        let off = (addr - b) as usize;
        let mut r = Vec::with_capacity(len as usize);
        for i in off..off + len as usize {
            let s = o.sym.as_ref().map(|s| s[i]).unwrap_or(NOSYM);
            r.push(if s == NOSYM { konst(o.conc[i] as u128, 8) } else { s });
        }
        Ok(r)
    }
    pub fn read_conc(&self, st: &State, addr: u64, len: u64) -> R<Vec<u8>> {
        if len == 0 {
            return Ok(vec![]);
        }
        let (b, o) = self.locate(st, addr, len, "read")?;
        let off = (addr - b) as usize;
        if let Some(s) = &o.sym {
            if s[off..off + len as usize].iter().any(|x| *x != NOSYM) {
                return Err(Stop::Err("concrete bytes expected".into()));
            }
        }
        Ok(o.conc[off..off + len as usize].to_vec())
    }
    pub fn write_byte_exprs(&self, st: &mut State, addr: u64, v: &[E]) -> R<()> {
        if v.is_empty() {
            return Ok(());
        }
        let (b, o) = self.obj_mut(st, addr, v.len() as u64)?;
        let off = (addr - b) as usize;
        for (i, e) in v.iter().enumerate() {
            match as_const(*e) {
                Some(k) => {
                    o.conc[off + i] = k as u8;
                    if let Some(s) = &mut o.sym {
                        s[off + i] = NOSYM;
                    }
                }
                None => {
                    let n = o.size as usize;
                    o.sym.get_or_insert_with(|| vec![NOSYM; n])[off + i] = *e;
                }
            }
        }
        Ok(())
    }

    fn load_scalar(o: &Obj, off: usize, w: u32) -> V {
        let nb = ((w + 7) / 8) as usize;
        if let Some(s) = &o.sym {
            if s[off..off + nb].iter().any(|x| *x != NOSYM) {
                let byte = |i: usize| if s[off + i] == NOSYM { konst(o.conc[off + i] as u128, 8) } else { s[off + i] };
                let mut r = byte(0);
                for i in 1..nb {
                    r = concat(byte(i), r);
                }
                let r = if w % 8 != 0 { extract(r, 0, w) } else { r };
                return mkv(r);
            }
        }
        let mut k = 0u128;
        if nb > 16 {
            let mut r = konst(o.conc[off] as u128, 8);
            for i in 1..nb {
                r = concat(konst(o.conc[off + i] as u128, 8), r);
            }
            return mkv(r);
        }
        for i in (0..nb).rev() {
            k = (k << 8) | o.conc[off + i] as u128;
        }
        V::C(msk(k, w))
    }
    fn load_t(o: &Obj, off: usize, t: &T) -> V {
        match t {
            T::Int(w) => Self::load_scalar(o, off, *w),
            T::Agg { fields, .. } => V::A(Rc::new(fields.iter().map(|(fo, ft)| Self::load_t(o, off + *fo as usize, ft)).collect())),
            T::Void => V::C(0),
        }
    }
    fn store_t(o: &mut Obj, off: usize, t: &T, v: &V) {
        match (t, v) {
            (T::Int(w), V::C(k)) => {
                let nb = ((w + 7) / 8) as usize;
                let by = k.to_le_bytes();
                for i in 0..nb {
                    o.conc[off + i] = if i < 16 { by[i] } else { 0 };
                }
                if let Some(s) = &mut o.sym {
                    for i in 0..nb {
                        s[off + i] = NOSYM;
                    }
                }
            }
            (T::Int(w), V::S(e)) => {
                let nb = ((w + 7) / 8) as usize;
                let e = if w % 8 != 0 { zext(*e, nb as u32 * 8) } else { *e };
                let n = o.size as usize;
                for i in 0..nb {
                    let b = extract(e, i as u32 * 8, 8);
                    match as_const(b) {
                        Some(k) => {
                            o.conc[off + i] = k as u8;
                            if let Some(s) = &mut o.sym {
                                s[off + i] = NOSYM;
                            }
                        }
                        None => o.sym.get_or_insert_with(|| vec![NOSYM; n])[off + i] = b,
                    }
                }
            }
            (T::Agg { fields, .. }, V::A(vs)) => {
                for ((fo, ft), x) in fields.iter().zip(vs.iter()) {
                    Self::store_t(o, off + *fo as usize, ft, x);
                }
            }
            (T::Agg { fields, .. }, V::C(0)) => {
                for (fo, ft) in fields {
                    Self::store_t(o, off + *fo as usize, ft, &V::C(0));
                }
            }
            (T::Void, _) => {}
            _ => panic!("store shape"),
        }
    }

    pub fn alloc(&self, st: &mut State, size: u64, align: u64, heap: bool) -> u64 {
        let al = align.max(16);
        let a = (st.next + al - 1) / al * al;
        st.next = a + size + 32;
        st.mem.insert(a, Rc::new(Obj::new(size, heap)));
        a
    }

    pub fn mem_copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sb, so) = self.locate(st, src, n, "read")?;
        let so = so.clone();
        let soff = (src - sb) as usize;
        let (db, d) = self.obj_mut(st, dst, n)?;
        let doff = (dst - db) as usize;
        let n = n as usize;
        d.conc[doff..doff + n].copy_from_slice(&so.conc[soff..soff + n]);
        match (&so.sym, &mut d.sym) {
            (None, None) => {}
            (None, Some(x)) => x[doff..doff + n].fill(NOSYM),
            (Some(s), dsym) => {
                if dsym.is_some() || s[soff..soff + n].iter().any(|x| *x != NOSYM) {
                    let sz = d.size as usize;
                    dsym.get_or_insert_with(|| vec![NOSYM; sz])[doff..doff + n].copy_from_slice(&s[soff..soff + n]);
                }
            }
        }
        Ok(())
    }
    pub fn mem_set(&mut self, st: &mut State, dst: u64, v: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let e = v_expr(v, 8);
        if let Some(k) = as_const(e) {
            let (b, o) = self.obj_mut(st, dst, n)?;
            let off = (dst - b) as usize;
            o.conc[off..off + n as usize].fill(k as u8);
            if let Some(s) = &mut o.sym {
                s[off..off + n as usize].fill(NOSYM);
            }
            Ok(())
        } else {
            let v = vec![e; n as usize];
            self.write_byte_exprs(st, dst, &v)
        }
    }

    /// three-way comparison (memcmp) or equality (bcmp) of two byte ranges, as a 32-bit value
    pub fn mem_cmp(&mut self, st: &State, a: u64, b: u64, n: u64, eq_only: bool) -> R<V> {
        let (x, y) = (self.read_byte_exprs(st, a, n)?, self.read_byte_exprs(st, b, n)?);
        let mut chunks = vec![];
        let mut i = 0;
        while i < x.len() {
            let k = (x.len() - i).min(8);
            let (mut p, mut q) = (x[i], y[i]);
            for j in 1..k {
                p = concat(p, x[i + j]);
                q = concat(q, y[i + j]);
            }
            let e = eq(p, q);
            i += k;
            if as_const(e) == Some(1) {
                continue;
            }
            chunks.push((p, q, e));
            if as_const(e) == Some(0) && !eq_only {
                break;
            }
        }
        if eq_only {
            let mut r = tru();
            for (_, _, e) in chunks {
                r = and(r, e);
            }
            return Ok(mkv(ite(r, konst(0, 32), konst(1, 32))));
        }
        let mut r = konst(0, 32);
        for (p, q, e) in chunks.iter().rev() {
            let lt = ult(*p, *q);
            r = ite(*e, r, ite(lt, konst(u128::MAX, 32), konst(1, 32)));
        }
        Ok(mkv(r))
    }

    // ---------- inputs ----------

    /// input variable, named by its position on the path so equal inputs share names across paths
    pub fn input_var(&mut self, pos: u32, kind: u32, w: u32) -> E {
        let key = (pos, kind, w);
        if let Some(i) = self.invar.get(&key) {
            return var(*i, w);
        }
        let e = fresh(w);
        self.invar.insert(key, node(e).a);
        e
    }

    // ---------- main loop ----------

    /// Explore until the work list is empty (true) or `until` has passed (false). Breadth-first pops the
    /// oldest state, and stops when the list holds `enough` states.
    pub fn run(&mut self, until: Option<std::time::Instant>, breadth: bool, enough: usize) -> bool {
        loop {
            if until.map(|d| std::time::Instant::now() > d).unwrap_or(false) || self.work.len() >= enough {
                return self.work.is_empty();
            }
            let mut st = match if breadth && !self.work.is_empty() { Some(self.work.remove(0)) } else { self.work.pop() } {
                Some(s) => s,
                None => return true,
            };
            if self.over() {
                self.work.clear();
                *self.rep.errors.entry("exploration stopped: time or path budget exhausted".into()).or_default() += 1;
                return true;
            }
            let r = self.run_path(&mut st);
            self.finish(st, r);
        }
    }
    fn over(&self) -> bool {
        let now = std::time::Instant::now();
        let f = unsafe { (*self.found).load(std::sync::atomic::Ordering::Relaxed) };
        self.rep.paths >= self.max_paths || self.deadline.map(|d| now > d).unwrap_or(false) || f != 0 && (now - self.start).as_millis() as usize > f + self.grace
    }

    pub fn finish(&mut self, st: State, r: Stop) {
        self.rep.instrs += st.icount;
        self.rep.max_pc = self.rep.max_pc.max(st.pc.len());
        match r {
            Stop::Done => {
                self.rep.paths += 1;
                let newlab: Vec<String> = st.reached.iter().filter(|l| !self.rep.reached.contains_key(*l)).cloned().collect();
                for l in st.reached.iter() {
                    *self.rep.reached.entry(l.clone()).or_default() += 1;
                }
                let want = !newlab.is_empty() || self.rep.paths % self.sample_every == 0;
                if want && self.rep.samples.len() < self.max_samples + self.rep.reached.len() {
                    let md = crate::hooks::realise(self, &st, &st.model.clone(), &[]);
                    if let Some(md) = md {
                        let input: Vec<u8> = st.inputs.iter().map(|e| md.eval(*e) as u8).collect();
                        let obs = st.obs.iter().map(|o| (o.label.clone(), o.bytes.iter().map(|e| md.eval(*e) as u8).collect())).collect();
                        self.rep.samples.push((input, obs, st.reached.iter().cloned().collect()));
                    }
                }
            }
            Stop::Kill => self.rep.killed += 1,
            Stop::Viol(k, msg) => {
                self.rep.paths += 1;
                let md = st.model.clone();
                self.violation(&st, &k, &msg, &md, &[]);
            }
            Stop::Err(e) => {
                if std::env::var("SYMEX_ERR").is_ok() {
                    eprintln!("error: {} at {}", e, self.trace(&st));
                }
                *self.rep.errors.entry(e).or_default() += 1;
            }
        }
    }

    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut k = 0u32;
        loop {
            k += 1;
            if k % 4096 == 0 && self.over() {
                return Stop::Err("exploration stopped: time or path budget exhausted".into());
            }
            if let Err(s) = self.step_block(st) {
                return s;
            }
            if st.icount > self.max_instr {
                return Stop::Err("instruction budget of one path exhausted".into());
            }
            if st.icount & 0xffff < 16 && self.over() {
                return Stop::Err("exploration stopped: time or path budget exhausted".into());
            }
        }
    }

    #[inline]
    fn val(fr: &Frame, o: &O) -> V {
        match o {
            O::R(r) => fr.regs[*r as usize].clone(),
            O::K(v) => v.clone(),
        }
    }

    fn jump(&mut self, fr: &mut Frame, to: u32) {
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let vals: Vec<V> = b
                .phis
                .iter()
                .map(|(_, inc)| {
                    let (_, o) = inc.iter().find(|(p, _)| *p == from).expect("phi predecessor");
                    Self::val(fr, o)
                })
                .collect();
            for ((d, _), v) in b.phis.iter().zip(vals) {
                fr.regs[*d as usize] = v;
            }
        }
        fr.bb = to;
        fr.ip = 0;
    }

    /// Execute instructions until control leaves the current function or an event happens.
    fn step_block(&mut self, st: &mut State) -> R<()> {
        let mut budget = 256;
        loop {
            let top = st.frames.len() - 1;
            // take the frame out to allow free use of st; put back before anything that may clone st
            let f = st.frames[top].f.clone();
            let (bb, ip) = {
                let fr = &st.frames[top];
                (fr.bb, fr.ip)
            };
            let ins = &f.blocks[bb as usize].ins[ip as usize];
            st.icount += 1;
            macro_rules! fr {
                () => {
                    Rc::make_mut(&mut st.frames[top])
                };
            }
            macro_rules! get {
                ($o:expr) => {
                    Self::val(&st.frames[top], $o)
                };
            }
            macro_rules! set {
                ($v:expr) => {{
                    let v = $v;
                    let fr = fr!();
                    if ins.dst != NODST {
                        fr.regs[ins.dst as usize] = v;
                    }
                    fr.ip += 1;
                }};
            }
            match &ins.i {
                I::Bin(op, w, a, b) => {
                    let (a, b) = (get!(a), get!(b));
                    let r = self.bin(st, *op, *w, a, b)?;
                    set!(r)
                }
                I::VBin(op, w, a, b) => {
                    let (a, b) = (lanes(&get!(a))?, lanes(&get!(b))?);
                    let mut o = vec![];
                    for (x, y) in a.iter().zip(b.iter()) {
                        o.push(self.bin(st, *op, *w, x.clone(), y.clone())?);
                    }
                    set!(V::A(Rc::new(o)))
                }
                I::Icmp(p, w, a, b) => {
                    let r = icmp(*p, *w, &get!(a), &get!(b));
                    set!(r)
                }
                I::VIcmp(p, w, a, b) => {
                    let (a, b) = (lanes(&get!(a))?, lanes(&get!(b))?);
                    let o = a.iter().zip(b.iter()).map(|(x, y)| icmp(*p, *w, x, y)).collect();
                    set!(V::A(Rc::new(o)))
                }
                I::Select(c, w, a, b) => {
                    let c = get!(c);
                    let r = match c {
                        V::C(k) => {
                            if k & 1 == 1 {
                                get!(a)
                            } else {
                                get!(b)
                            }
                        }
                        V::S(e) => {
                            let (x, y) = (get!(a), get!(b));
                            if matches!(x, V::A(_)) || matches!(y, V::A(_)) {
                                if self.branch(st, e)? {
                                    x
                                } else {
                                    y
                                }
                            } else if let Some(k) = st.known.get(&e) {
                                if *k == 1 {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                mkv(ite(e, v_expr(&x, *w), v_expr(&y, *w)))
                            }
                        }
                        V::A(_) => return Err(Stop::Err("select condition".into())),
                    };
                    set!(r)
                }
                I::VSelect(c, w, a, b) => {
                    let (c, a, b) = (lanes(&get!(c))?, lanes(&get!(a))?, lanes(&get!(b))?);
                    let o = (0..c.len())
                        .map(|i| match &c[i] {
                            V::C(k) => {
                                if k & 1 == 1 {
                                    a[i].clone()
                                } else {
                                    b[i].clone()
                                }
                            }
                            V::S(e) => mkv(ite(*e, v_expr(&a[i], *w), v_expr(&b[i], *w))),
                            _ => unreachable!(),
                        })
                        .collect();
                    set!(V::A(Rc::new(o)))
                }
                I::Br(d) => {
                    let fr = Rc::make_mut(&mut st.frames[top]);
                    self.jump(fr, *d);
                }
                I::CondBr(c, t, e) => {
                    let b = match get!(c) {
                        V::C(k) => k & 1 == 1,
                        V::S(c) => self.branch(st, c)?,
                        _ => unreachable!(),
                    };
                    let fr = Rc::make_mut(&mut st.frames[top]);
                    self.jump(fr, if b { *t } else { *e });
                }
                I::Switch(v, w, def, cases) => {
                    let d = match get!(v) {
                        V::C(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                        V::S(e) => {
                            if let Some(k) = st.known.get(&e) {
                                let k = *k;
                                cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def)
                            } else {
                                // group by destination
                                let mut by: Vec<(u32, E)> = vec![];
                                let mut any = fls();
                                for (k, d) in cases {
                                    let c = eq(e, konst(*k, *w));
                                    any = or(any, c);
                                    if *d == *def {
                                        continue;
                                    }
                                    match by.iter_mut().find(|x| x.0 == *d) {
                                        Some(x) => x.1 = or(x.1, c),
                                        None => by.push((*d, c)),
                                    }
                                }
                                let _ = any;
                                // take the destination the current model selects; fork others as needed
                                let mut res = None;
                                let mut order: Vec<usize> = (0..by.len()).collect();
                                // evaluate the model-selected one first so only the others cost a query
                                order.sort_by_key(|i| !st.model.holds(by[*i].1));
                                for i in order {
                                    if self.branch(st, by[i].1)? {
                                        res = Some(by[i].0);
                                        break;
                                    }
                                }
                                res.unwrap_or(*def)
                            }
                        }
                        _ => unreachable!(),
                    };
                    let fr = Rc::make_mut(&mut st.frames[top]);
                    self.jump(fr, d);
                }
                I::Ret(v) => {
                    let rv = v.as_ref().map(|v| get!(v));
                    self.ret(st, rv)?;
                }
                I::Unreachable => return Err(Stop::Viol("unreachable".into(), "unreachable code reached".into())),
                I::Call { callee, fixed, args, ret, normal } => {
                    let fi = match fixed {
                        Some(i) => *i,
                        None => {
                            let v = get!(callee);
                            let a = self.conc(st, &v)?;
                            match self.p.fn_at.get(&a) {
                                Some(i) => *i,
                                None => return Err(Stop::Viol("memory".into(), format!("call through invalid pointer {:#x}", a))),
                            }
                        }
                    };
                    let av: Vec<(V, u32)> = args.iter().map(|(o, w)| (get!(o), *w)).collect();
                    if let Some(h) = self.hooks.get(&fi).copied() {
                        let hr = match crate::hooks::call(self, st, h, &av, ret, fi) {
                            Err(Stop::Err(e)) if e == "@resume" => continue,
                            r => r?,
                        };
                        if let Some(r) = hr {
                            let fr = fr!();
                            if ins.dst != NODST {
                                fr.regs[ins.dst as usize] = r;
                            }
                            match normal {
                                Some(d) => {
                                    let d = *d;
                                    self.jump(Rc::make_mut(&mut st.frames[top]), d)
                                }
                                None => fr.ip += 1,
                            }
                            continue;
                        }
                    }
                    let cf = match self.p.func(fi) {
                        Some(f) => f,
                        None => return Err(Stop::Err(format!("call of undefined function {}", crate::hooks::demangle(&self.p.m.funcs[fi as usize].name)))),
                    };
                    self.rep.funcs.insert(fi);
                    if st.frames.len() > 400 {
                        return Err(Stop::Err("call depth".into()));
                    }
                    let mut regs = vec![V::C(0); cf.nregs as usize];
                    for (i, p) in cf.params.iter().enumerate() {
                        regs[*p as usize] = av[i].0.clone();
                    }
                    let nf = Frame { f: cf, bb: 0, ip: 0, regs, allocas: vec![], dst: ins.dst, normal: *normal };
                    st.frames.push(Rc::new(nf));
                }
                I::Alloca(sz, n, al) => {
                    let nv = get!(n);
                    let k = self.conc(st, &nv)?;
                    let a = self.alloc(st, sz * k, *al, false);
                    fr!().allocas.push(a);
                    set!(V::C(a as u128))
                }
                I::Load(t, p) => {
                    let pv = get!(p);
                    let sz = t.size();
                    if sz == 0 {
                        set!(self.p.zero_of(t));
                        continue;
                    }
                    if let V::S(e) = &pv {
                        if !st.known.contains_key(e) {
                            if let Some(r) = self.table_load(st, *e, t)? {
                                set!(r);
                                continue;
                            }
                        }
                    }
                    let a = self.conc(st, &pv)?;
                    // scalar loads touch only the bytes of the value
                    let need = if let T::Int(w) = &**t { ((*w + 7) / 8) as u64 } else { sz };
                    let (b, o) = self.locate(st, a, need, "read")?;
                    let r = Self::load_t(o, (a - b) as usize, t);
                    set!(r)
                }
                I::Store(t, v, p) => {
                    let (v, pv) = (get!(v), get!(p));
                    let a = self.conc(st, &pv)?;
                    let need = if let T::Int(w) = &**t { ((*w + 7) / 8) as u64 } else { t.size() };
                    if need > 0 {
                        let (b, o) = self.obj_mut(st, a, need)?;
                        Self::store_t(o, (a - b) as usize, t, &v);
                    }
                    fr!().ip += 1;
                }
                I::Gep(p, off, dynv) => {
                    let mut base = get!(p);
                    if *off != 0 {
                        base = match base {
                            V::C(k) => V::C((k as u64).wrapping_add(*off as u64) as u128),
                            V::S(e) => mkv(add(e, konst(*off as u64 as u128, 64))),
                            _ => unreachable!(),
                        };
                    }
                    for (o, w, s) in dynv {
                        let iv = get!(o);
                        base = match (&base, &iv) {
                            (V::C(k), V::C(i)) => {
                                let i = sxx(*i, *w) as i64;
                                V::C((*k as u64).wrapping_add((i as u64).wrapping_mul(*s as u64)) as u128)
                            }
                            _ => {
                                let ie = v_expr(&iv, *w);
                                let ie = if *w < 64 { sext(ie, 64) } else { ie };
                                let t = mul(ie, konst(*s as u64 as u128, 64));
                                mkv(add(v_expr(&base, 64), t))
                            }
                        };
                    }
                    set!(base)
                }
                I::Trunc(o, _f, t) => {
                    let r = match get!(o) {
                        V::C(k) => V::C(msk(k, *t)),
                        V::S(e) => mkv(extract(e, 0, *t)),
                        _ => unreachable!(),
                    };
                    set!(r)
                }
                I::Zext(o, _f, t) => {
                    let r = match get!(o) {
                        V::C(k) => V::C(k),
                        V::S(e) => mkv(zext(e, *t)),
                        _ => unreachable!(),
                    };
                    set!(r)
                }
                I::Sext(o, f, t) => {
                    let r = match get!(o) {
                        V::C(k) => V::C(msk(sxx(k, *f) as u128, *t)),
                        V::S(e) => mkv(sext(e, *t)),
                        _ => unreachable!(),
                    };
                    set!(r)
                }
                I::VCast(k, o, f, t) => {
                    let l = lanes(&get!(o))?;
                    let o = l
                        .iter()
                        .map(|x| match (k, x) {
                            (0, V::C(c)) => V::C(msk(*c, *t)),
                            (1, V::C(c)) => V::C(*c),
                            (2, V::C(c)) => V::C(msk(sxx(*c, *f) as u128, *t)),
                            (0, V::S(e)) => mkv(extract(*e, 0, *t)),
                            (1, V::S(e)) => mkv(zext(*e, *t)),
                            (2, V::S(e)) => mkv(sext(*e, *t)),
                            _ => unreachable!(),
                        })
                        .collect();
                    set!(V::A(Rc::new(o)))
                }
                I::Bitcast(o, ft, tt) => {
                    let r = bitcast(&get!(o), ft, tt);
                    set!(r)
                }
                I::Copy(o) => {
                    let r = get!(o);
                    set!(r)
                }
                I::Extract(o, idx) => {
                    let mut v = get!(o);
                    for i in idx {
                        v = match &v {
                            V::A(a) => a[*i as usize].clone(),
                            V::C(0) => V::C(0),
                            _ => return Err(Stop::Err("extractvalue shape".into())),
                        };
                    }
                    set!(v)
                }
                I::Insert(o, x, idx, t) => {
                    let mut v = get!(o);
                    let x = get!(x);
                    insert(&self.p, &mut v, t, idx, x);
                    set!(v)
                }
                I::ExtractElem(v, i) => {
                    let (v, iv) = (get!(v), get!(i));
                    let k = self.conc(st, &iv)?;
                    let r = lanes(&v)?[k as usize].clone();
                    set!(r)
                }
                I::InsertElem(v, e, i, n) => {
                    let (v, e, iv) = (get!(v), get!(e), get!(i));
                    let k = self.conc(st, &iv)?;
                    let mut l = match v {
                        V::A(l) => (*l).clone(),
                        _ => vec![V::C(0); *n as usize],
                    };
                    l[k as usize] = e;
                    set!(V::A(Rc::new(l)))
                }
                I::Shuffle(a, b, mask, n) => {
                    let (a, b) = (get!(a), get!(b));
                    let pick = |v: &V, i: usize| match v {
                        V::A(l) => l[i].clone(),
                        _ => V::C(0),
                    };
                    let o = mask.iter().map(|i| if (*i as u64) < *n { pick(&a, *i as usize) } else { pick(&b, (*i as u64 - *n) as usize) }).collect();
                    set!(V::A(Rc::new(o)))
                }
                I::Rmw(op, p, v, w) => {
                    let (pv, v) = (get!(p), get!(v));
                    let a = self.conc(st, &pv)?;
                    let t = T::Int(*w);
                    let old = {
                        let (b, o) = self.locate(st, a, t.size(), "read")?;
                        Self::load_t(o, (a - b) as usize, &t)
                    };
                    let nv = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin(st, BinOp::Add, *w, old.clone(), v)?,
                        "sub" => self.bin(st, BinOp::Sub, *w, old.clone(), v)?,
                        "or" => self.bin(st, BinOp::Or, *w, old.clone(), v)?,
                        "and" => self.bin(st, BinOp::And, *w, old.clone(), v)?,
                        "xor" => self.bin(st, BinOp::Xor, *w, old.clone(), v)?,
                        _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                    };
                    let (b, o) = self.obj_mut(st, a, t.size())?;
                    Self::store_t(o, (a - b) as usize, &t, &nv);
                    set!(old)
                }
                I::CmpXchg(p, c, n, w) => {
                    let (pv, c, n) = (get!(p), get!(c), get!(n));
                    let a = self.conc(st, &pv)?;
                    let t = T::Int(*w);
                    let old = {
                        let (b, o) = self.locate(st, a, t.size(), "read")?;
                        Self::load_t(o, (a - b) as usize, &t)
                    };
                    let same = match icmp(Pred::Eq, *w, &old, &c) {
                        V::C(k) => k == 1,
                        V::S(e) => self.branch(st, e)?,
                        _ => unreachable!(),
                    };
                    if same {
                        let (b, o) = self.obj_mut(st, a, t.size())?;
                        Self::store_t(o, (a - b) as usize, &t, &n);
                    }
                    set!(V::A(Rc::new(vec![old, V::C(same as u128)])))
                }
                I::Fence => fr!().ip += 1,
                I::Bad(s) => return Err(Stop::Err(format!("unsupported instruction: {} in {}", s, crate::hooks::demangle(&f.name)))),
            }
            budget -= 1;
            if budget == 0 {
                return Ok(());
            }
        }
    }

    pub fn ret(&mut self, st: &mut State, rv: Option<V>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.remove(a);
        }
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        let t = st.frames.len() - 1;
        let nf = Rc::make_mut(&mut st.frames[t]);
        if fr.dst != NODST {
            nf.regs[fr.dst as usize] = rv.unwrap_or(V::C(0));
        }
        match fr.normal {
            Some(d) => self.jump(Rc::make_mut(&mut st.frames[t]), d),
            None => nf.ip += 1,
        }
        Ok(())
    }

    /// load at a symbolic address that provably stays inside one small constant table
    fn table_load(&mut self, st: &mut State, e: E, t: &T) -> R<Option<V>> {
        let w = match t {
            T::Int(w) => *w,
            _ => return Ok(None),
        };
        let len = ((w + 7) / 8) as u64;
        let a0 = st.model.eval(e) as u64;
        let (b, o) = match self.find(st, a0) {
            Some((b, o)) => (b, o.clone()),
            None => return Ok(None),
        };
        if !o.ro || o.size > 2048 || o.size < len {
            return Ok(None);
        }
        // in bounds for all values?
        let d = sub(e, konst(b as u128, 64));
        let inb = not(ult(konst((o.size - len) as u128, 64), d));
        match self.sol.check(&st.pc, &[not(inb)], &st.model) {
            Res::Unsat => {}
            _ => return Ok(None),
        }
        let mut r: Option<E> = None;
        let mut cnt = 0;
        for off in 0..=(o.size - len) {
            let c = eq(e, konst((b + off) as u128, 64));
            if as_const(c) == Some(0) {
                continue;
            }
            let v = v_expr(&Self::load_scalar(&o, off as usize, w), w);
            cnt += 1;
            r = Some(match r {
                None => v,
                Some(x) => ite(c, v, x),
            });
            if cnt > 600 {
                return Ok(None);
            }
        }
        Ok(r.map(mkv))
    }

    pub fn bin(&mut self, st: &mut State, op: BinOp, w: u32, a: V, b: V) -> R<V> {
        use BinOp::*;
        if let (V::C(x), V::C(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Add => x.wrapping_add(y),
                Sub => x.wrapping_sub(y),
                Mul => x.wrapping_mul(y),
                UDiv | URem | SDiv | SRem if y == 0 => return Err(Stop::Viol("panic".into(), "division by zero".into())),
                UDiv => x / y,
                URem => x % y,
                SDiv => sxx(x, w).wrapping_div(sxx(y, w)) as u128,
                SRem => sxx(x, w).wrapping_rem(sxx(y, w)) as u128,
                Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        x << y
                    }
                }
                LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                AShr => (sxx(x, w) >> y.min(w as u128 - 1)) as u128,
                And => x & y,
                Or => x | y,
                Xor => x ^ y,
            };
            return Ok(V::C(msk(r, w)));
        }
        let (x, y) = (v_expr(&a, w), v_expr(&b, w));
        let r = match op {
            Add => add(x, y),
            Sub => sub(x, y),
            Mul => mul(x, y),
            UDiv | URem | SDiv | SRem => {
                // division by zero is UB in IR: rustc guards it, so feasibility here is an error
                if as_const(y).is_none() {
                    let z = eq(y, konst(0, w));
                    if self.branch(st, z)? {
                        return Err(Stop::Viol("panic".into(), "division by zero".into()));
                    }
                }
                match op {
                    UDiv => udiv(x, y),
                    URem => urem(x, y),
                    SDiv => sdiv(x, y),
                    _ => srem(x, y),
                }
            }
            Shl => shl(x, y),
            LShr => lshr(x, y),
            AShr => ashr(x, y),
            And => and(x, y),
            Or => or(x, y),
            Xor => xor(x, y),
        };
        Ok(mkv(r))
    }
}

fn insert(p: &Prog, v: &mut V, t: &T, idx: &[u32], x: V) {
    if idx.is_empty() {
        *v = x;
        return;
    }
    if !matches!(v, V::A(_)) {
        *v = p.zero_of(t);
    }
    if let (V::A(a), T::Agg { fields, .. }) = (v, t) {
        let i = idx[0] as usize;
        let a = Rc::make_mut(a);
        insert(p, &mut a[i], &fields[i].1, &idx[1..], x);
    }
}

fn lanes(v: &V) -> R<Rc<Vec<V>>> {
    match v {
        V::A(a) => Ok(a.clone()),
        _ => Err(Stop::Err("vector shape".into())),
    }
}

pub fn icmp(p: Pred, w: u32, a: &V, b: &V) -> V {
    use Pred::*;
    if let (V::C(x), V::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let (sx, sy) = (sxx(x, w), sxx(y, w));
        return V::C(match p {
            Eq => x == y,
            Ne => x != y,
            Ult => x < y,
            Ule => x <= y,
            Ugt => x > y,
            Uge => x >= y,
            Slt => sx < sy,
            Sle => sx <= sy,
            Sgt => sx > sy,
            Sge => sx >= sy,
        } as u128);
    }
    let (x, y) = (v_expr(a, w), v_expr(b, w));
    mkv(match p {
        Eq => eq(x, y),
        Ne => not(eq(x, y)),
        Ult => ult(x, y),
        Ule => not(ult(y, x)),
        Ugt => ult(y, x),
        Uge => not(ult(x, y)),
        Slt => slt(x, y),
        Sle => not(slt(y, x)),
        Sgt => slt(y, x),
        Sge => not(slt(x, y)),
    })
}

fn flat(v: &V, t: &T, out: &mut Vec<(E, u32)>) {
    match t {
        T::Int(w) => out.push((v_expr(v, *w), *w)),
        T::Agg { fields, .. } => {
            if let V::A(a) = v {
                for (x, f) in a.iter().zip(fields) {
                    flat(x, &f.1, out);
                }
            } else {
                for f in fields {
                    flat(&V::C(0), &f.1, out);
                }
            }
        }
        T::Void => {}
    }
}
pub fn bitcast(v: &V, ft: &T, tt: &T) -> V {
    let mut l = vec![];
    flat(v, ft, &mut l);
    let mut e = l[0].0;
    for (x, _) in &l[1..] {
        e = concat(*x, e);
    }
    fn un(e: E, off: &mut u32, t: &T) -> V {
        match t {
            T::Int(w) => {
                let r = extract(e, *off, *w);
                *off += *w;
                mkv(r)
            }
            T::Agg { fields, .. } => V::A(Rc::new(fields.iter().map(|f| un(e, off, &f.1)).collect())),
            T::Void => V::C(0),
        }
    }
    let mut off = 0;
    un(e, &mut off, tt)
}
