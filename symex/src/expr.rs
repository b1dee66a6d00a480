//! Hash-consed bit-vector expressions with on-the-fly simplification.
//! Width-1 expressions are booleans. Zero extension and constant shifts are represented as
//! concatenations, so that byte-wise stores and loads of the same value cancel out.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat, // a = high, b = low
    Extract, // k = low bit
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub struct Cx {
    pub n: Vec<Node>,
    map: FxMap<Node, E>,
    vars: FxMap<E, Rc<Vec<u32>>>,
    pub nvars: u32,
    pub var_w: Vec<u32>,
    empty: Rc<Vec<u32>>,
}

static mut CX: *mut Cx = std::ptr::null_mut();

#[inline(always)]
pub fn cx() -> &'static mut Cx {
    unsafe {
        if CX.is_null() {
            CX = Box::into_raw(Box::new(Cx { n: Vec::new(), map: Default::default(), vars: Default::default(), nvars: 0, var_w: vec![], empty: Rc::new(vec![]) }));
        }
        &mut *CX
    }
}

#[inline(always)]
pub fn m(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn mk(n: Node) -> E {
    let c = cx();
    if let Some(e) = c.map.get(&n) {
        return *e;
    }
    let e = c.n.len() as E;
    c.n.push(n);
    c.map.insert(n, e);
    e
}

#[inline]
pub fn node(e: E) -> Node {
    cx().n[e as usize]
}
#[inline]
pub fn width(e: E) -> u32 {
    cx().n[e as usize].w
}
pub fn konst(v: u128, w: u32) -> E {
    if w > 128 {
        return concat(konst(0, w - 128), konst(v, 128));
    }
    mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: m(v, w) })
}
pub fn tru() -> E {
    konst(1, 1)
}
pub fn fls() -> E {
    konst(0, 1)
}
pub fn fresh(w: u32) -> E {
    let c = cx();
    let id = c.nvars;
    c.nvars += 1;
    c.var_w.push(w);
    mk(Node { op: Op::Var, w, a: id, b: 0, c: 0, k: 0 })
}
/// variable with a fixed index (created on demand): gives equal names to equal inputs on all paths
pub fn var(id: u32, w: u32) -> E {
    mk(Node { op: Op::Var, w, a: id, b: 0, c: 0, k: 0 })
}
#[inline]
pub fn as_const(e: E) -> Option<u128> {
    let n = &cx().n[e as usize];
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}

fn n2(op: Op, w: u32, a: E, b: E) -> E {
    mk(Node { op, w, a, b, c: 0, k: 0 })
}

fn pieces(e: E, out: &mut Vec<E>) {
    // low to high
    let n = node(e);
    if n.op == Op::Concat {
        pieces(n.b, out);
        pieces(n.a, out);
    } else {
        out.push(e);
    }
}

pub fn concat(hi: E, lo: E) -> E {
    let (h, l) = (node(hi), node(lo));
    let w = h.w + l.w;
    if h.op == Op::Const && l.op == Op::Const && w <= 128 {
        return konst((h.k << l.w) | l.k, w);
    }
    // adjacent extracts
    if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.k == l.k + l.w as u128 {
        return join(h.a, l.k as u32, w);
    }
    // pieces of a choice, as of a word written to memory and read back
    if let Some(e) = together(hi, lo) {
        return e;
    }
    // keep right-nested with low part as a non-concat leaf: concat(hi, concat(x, y)) => concat(concat(hi, x), y)
    if l.op == Op::Concat {
        let nh = concat(hi, l.a);
        return concat(nh, l.b);
    }
    // hi = concat(x, y): try to merge y with lo
    if h.op == Op::Concat {
        let y = node(h.b);
        if y.op == Op::Const && l.op == Op::Const && y.w + l.w <= 128 {
            let k = konst((y.k << l.w) | l.k, y.w + l.w);
            return concat(h.a, k);
        }
        if y.op == Op::Extract && l.op == Op::Extract && y.a == l.a && y.k == l.k + l.w as u128 {
            let k = join(l.a, l.k as u32, y.w + l.w);
            return concat(h.a, k);
        }
        if let Some(k) = together(h.b, lo) {
            return concat(h.a, k);
        }
    }
    n2(Op::Concat, w, hi, lo)
}
/// adjacent pieces of choices by the same condition, if they fit together on both sides
fn together(hi: E, lo: E) -> Option<E> {
    let (h, l) = (node(hi), node(lo));
    if h.op != Op::Ite || l.op != Op::Ite || h.a != l.a || h.w + l.w > 128 {
        return None;
    }
    let fits = |x: E, y: E| {
        let (a, b) = (node(x), node(y));
        (a.op == Op::Const && b.op == Op::Const) || (a.op == Op::Extract && b.op == Op::Extract && a.a == b.a && a.k == b.k + b.w as u128)
    };
    if fits(h.b, l.b) && fits(h.c, l.c) {
        return Some(ite(h.a, concat(h.b, l.b), concat(h.c, l.c)));
    }
    None
}

/// a wider piece of a term of which pieces were taken already
fn join(e: E, lo: u32, w: u32) -> E {
    let n = node(e);
    if lo == 0 && w < n.w && (n.op == Op::Add || n.op == Op::Mul) {
        return mk(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: 0 });
    }
    extract(e, lo, w)
}
pub fn extract(e: E, lo: u32, w: u32) -> E {
    let n = node(e);
    debug_assert!(lo + w <= n.w);
    if lo == 0 && w == n.w {
        return e;
    }
    match n.op {
        Op::Const => konst(n.k >> lo, w),
        Op::Extract => extract(n.a, n.k as u32 + lo, w),
        Op::Concat => {
            let lw = width(n.b);
            if lo + w <= lw {
                extract(n.b, lo, w)
            } else if lo >= lw {
                extract(n.a, lo - lw, w)
            } else {
                let l = extract(n.b, lo, lw - lo);
                let h = extract(n.a, 0, lo + w - lw);
                concat(h, l)
            }
        }
        Op::And => {
            let (a, b) = (extract(n.a, lo, w), extract(n.b, lo, w));
            and(a, b)
        }
        Op::Or => {
            let (a, b) = (extract(n.a, lo, w), extract(n.b, lo, w));
            or(a, b)
        }
        Op::Xor => {
            let (a, b) = (extract(n.a, lo, w), extract(n.b, lo, w));
            xor(a, b)
        }
        Op::Not => not(extract(n.a, lo, w)),
        Op::Ite => {
            let (a, b) = (node(n.b), node(n.c));
            if a.op == Op::Const || b.op == Op::Const || a.op == Op::Concat || b.op == Op::Concat {
                let (x, y) = (extract(n.b, lo, w), extract(n.c, lo, w));
                return ite(n.a, x, y);
            }
            mk(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 })
        }
        Op::SExt => {
            let iw = width(n.a);
            if lo + w <= iw {
                extract(n.a, lo, w)
            } else if w == 1 {
                extract(n.a, iw - 1, 1)
            } else {
                mk(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 })
            }
        }
        // (bytes stay whole: they are usually put together again)
        Op::Add | Op::Mul if lo == 0 && w != 8 => {
            // low bits of add/mul depend on low bits only
            let (a, b) = (extract(n.a, 0, w), extract(n.b, 0, w));
            if n.op == Op::Add {
                add(a, b)
            } else {
                mul(a, b)
            }
        }
        _ => mk(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 }),
    }
}

pub fn zext(e: E, w: u32) -> E {
    let ew = width(e);
    if ew == w {
        return e;
    }
    concat(konst(0, w - ew), e)
}
pub fn sext(e: E, w: u32) -> E {
    let n = node(e);
    if n.w == w {
        return e;
    }
    if n.op == Op::Const {
        return konst(sx(n.k, n.w) as u128, w);
    }
    let top = extract(e, n.w - 1, 1);
    if as_const(top) == Some(0) {
        return zext(e, w);
    }
    if n.w == 1 {
        return ite(e, konst(u128::MAX, w), konst(0, w));
    }
    mk(Node { op: Op::SExt, w, a: e, b: 0, c: 0, k: 0 })
}
pub fn not(e: E) -> E {
    let n = node(e);
    match n.op {
        Op::Const => konst(!n.k, n.w),
        Op::Not => n.a,
        Op::Ite if n.w == 1 => {
            let (a, b) = (not(n.b), not(n.c));
            ite(n.a, a, b)
        }
        _ => mk(Node { op: Op::Not, w: n.w, a: e, b: 0, c: 0, k: 0 }),
    }
}

/// segment-wise combination when both operands split at common boundaries and every segment has a constant
fn bitwise_split(op: Op, a: E, b: E) -> Option<E> {
    let (na, nb) = (node(a), node(b));
    if na.w > 128 && (na.op != Op::Concat && nb.op != Op::Concat) {
        return None;
    }
    if na.op != Op::Concat && nb.op != Op::Concat && na.op != Op::Const && nb.op != Op::Const {
        return None;
    }
    let mut cuts: Vec<u32> = vec![];
    let mut collect = |e: E| {
        let mut p = vec![];
        pieces(e, &mut p);
        let mut o = 0;
        for x in p {
            let n = node(x);
            if n.op == Op::Const {
                // runs of equal bits
                let mut i = 0;
                let mut nr = 0;
                while i < n.w {
                    let bit = (n.k >> i) & 1;
                    let mut j = i;
                    while j < n.w && (n.k >> j) & 1 == bit {
                        j += 1;
                    }
                    cuts.push(o + i);
                    i = j;
                    nr += 1;
                }
                if nr > 16 {
                    cuts.push(u32::MAX);
                }
            }
            cuts.push(o);
            o += n.w;
        }
    };
    collect(a);
    collect(b);
    if cuts.contains(&u32::MAX) {
        return None;
    }
    cuts.push(na.w);
    cuts.sort_unstable();
    cuts.dedup();
    if cuts.len() > 40 {
        return None;
    }
    let mut segs = vec![];
    for s in cuts.windows(2) {
        let (lo, w) = (s[0], s[1] - s[0]);
        let (x, y) = (extract(a, lo, w), extract(b, lo, w));
        let (cx_, cy) = (as_const(x), as_const(y));
        let ones = m(u128::MAX, w);
        let r = match (op, cx_, cy) {
            (Op::And, Some(0), _) | (Op::And, _, Some(0)) => konst(0, w),
            (Op::And, Some(k), _) if k == ones => y,
            (Op::And, _, Some(k)) if k == ones => x,
            (Op::Or, Some(k), _) | (Op::Or, _, Some(k)) if k == ones => konst(ones, w),
            (Op::Or, Some(0), _) | (Op::Xor, Some(0), _) => y,
            (Op::Or, _, Some(0)) | (Op::Xor, _, Some(0)) => x,
            (Op::Xor, Some(k), _) if k == ones => not(y),
            (Op::Xor, _, Some(k)) if k == ones => not(x),
            _ => return None,
        };
        segs.push(r);
    }
    let mut r = segs[0];
    for s in &segs[1..] {
        r = concat(*s, r);
    }
    Some(r)
}

fn ord2(a: E, b: E) -> (E, E) {
    // constants last
    if as_const(a).is_some() || (as_const(b).is_none() && a > b) {
        (b, a)
    } else {
        (a, b)
    }
}

/// equalities of adjacent pieces of the same two terms are one equality
fn join_eq(a: E, b: E) -> Option<E> {
    let (na, nb) = (node(a), node(b));
    if na.op != Op::Eq || nb.op != Op::Eq {
        return None;
    }
    for (p, q) in [(na.a, na.b), (na.b, na.a)] {
        let np = node(p);
        if np.op != Op::Extract {
            continue;
        }
        for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
            let nr = node(r);
            if nr.op != Op::Extract || nr.a != np.a {
                continue;
            }
            let up = nr.k == np.k + np.w as u128;
            if !up && np.k != nr.k + nr.w as u128 {
                continue;
            }
            let (nq, ns) = (node(q), node(s));
            let ok = nq.op == Op::Const && ns.op == Op::Const && nq.w + ns.w <= 128 || nq.op == Op::Extract && ns.op == Op::Extract && nq.a == ns.a && (if up { ns.k == nq.k + nq.w as u128 } else { nq.k == ns.k + ns.w as u128 });
            if ok {
                let (x, y) = if up { (concat(r, p), concat(s, q)) } else { (concat(p, r), concat(q, s)) };
                return Some(eq(x, y));
            }
        }
    }
    None
}
/// joins `b` with one of the conjuncts of `a`
fn join_into(a: E, b: E, depth: u32) -> Option<E> {
    let na = node(a);
    if na.op == Op::And && depth > 0 {
        if let Some(r) = join_into(na.a, b, depth - 1) {
            return Some(and(r, na.b));
        }
        if let Some(r) = join_into(na.b, b, depth - 1) {
            return Some(and(na.a, r));
        }
        return None;
    }
    join_eq(a, b)
}
pub fn conjuncts(e: E, v: &mut Vec<E>) -> bool {
    let n = node(e);
    if n.op == Op::And {
        return conjuncts(n.b, v) && conjuncts(n.a, v);
    }
    v.push(e);
    v.len() < 60
}
pub fn and(a: E, b: E) -> E {
    if a == b {
        return a;
    }
    let (a, b) = ord2(a, b);
    let w = width(a);
    if let Some(k) = as_const(b) {
        if k == 0 {
            return b;
        }
        if k == m(u128::MAX, w) {
            return a;
        }
        if let Some(j) = as_const(a) {
            return konst(j & k, w);
        }
    }
    let (na, nb) = (node(a), node(b));
    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
        return konst(0, w);
    }
    if w == 1 {
        // absorb duplicates
        if (na.op == Op::And && (na.a == b || na.b == b)) || (nb.op == Op::And && (nb.a == a || nb.b == a)) {
            return if na.op == Op::And && (na.a == b || na.b == b) { a } else { b };
        }
        if let Some(r) = join_into(a, b, 40).or_else(|| join_into(b, a, 40)) {
            return r;
        }
        if na.op == Op::And || nb.op == Op::And {
            // one shape for the same conjuncts
            let mut v = vec![];
            if conjuncts(a, &mut v) && conjuncts(b, &mut v) {
                if na.op == Op::And && nb.op == Op::And {
                    // pieces of one comparison
                    let mut i = 0;
                    while i < v.len() {
                        let mut j = i + 1;
                        while j < v.len() {
                            if let Some(r) = join_eq(v[i], v[j]) {
                                v.swap_remove(j);
                                if node(r).op == Op::Eq {
                                    v[i] = r;
                                    j = i + 1;
                                } else {
                                    v.swap_remove(i);
                                    let rest = v.iter().fold(tru(), |q, x| and(q, *x));
                                    return and(rest, r);
                                }
                            } else {
                                j += 1;
                            }
                        }
                        i += 1;
                    }
                }
                v.sort();
                v.dedup();
                return v[1..].iter().fold(v[0], |r, x| n2(Op::And, 1, r, *x));
            }
        }
    } else if let Some(r) = bitwise_split(Op::And, a, b) {
        return r;
    }
    n2(Op::And, w, a, b)
}
pub fn or(a: E, b: E) -> E {
    if a == b {
        return a;
    }
    let (a, b) = ord2(a, b);
    let w = width(a);
    if let Some(k) = as_const(b) {
        if k == 0 {
            return a;
        }
        if k == m(u128::MAX, w) {
            return b;
        }
        if let Some(j) = as_const(a) {
            return konst(j | k, w);
        }
    }
    let (na, nb) = (node(a), node(b));
    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
        return konst(u128::MAX, w);
    }
    if w > 1 {
        if let Some(r) = bitwise_split(Op::Or, a, b) {
            return r;
        }
    } else {
        return not(and(not(a), not(b)));
    }
    n2(Op::Or, w, a, b)
}
pub fn xor(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return konst(0, w);
    }
    let (a, b) = ord2(a, b);
    if let Some(k) = as_const(b) {
        if k == 0 {
            return a;
        }
        if k == m(u128::MAX, w) {
            return not(a);
        }
        if let Some(j) = as_const(a) {
            return konst(j ^ k, w);
        }
    }
    if w == 1 {
        return not(eq(a, b));
    }
    if let Some(r) = bitwise_split(Op::Xor, a, b) {
        return r;
    }
    n2(Op::Xor, w, a, b)
}
pub fn add(a: E, b: E) -> E {
    let (a, b) = ord2(a, b);
    let w = width(a);
    if w == 1 {
        return xor(a, b);
    }
    if let Some(k) = as_const(b) {
        if k == 0 {
            return a;
        }
        let na = node(a);
        if na.op == Op::Const {
            return konst(na.k.wrapping_add(k), w);
        }
        if na.op == Op::Add {
            if let Some(j) = as_const(na.b) {
                return add(na.a, konst(j.wrapping_add(k), w));
            }
        }
        if na.op == Op::Ite {
            if let (Some(x), Some(y)) = (as_const(na.b), as_const(na.c)) {
                return ite(na.a, konst(x.wrapping_add(k), w), konst(y.wrapping_add(k), w));
            }
        }
    } else {
        // float constants outwards
        let (na, nb) = (node(a), node(b));
        if na.op == Op::Add {
            if let Some(k) = as_const(na.b) {
                let s = add(na.a, b);
                return add(s, konst(k, w));
            }
        }
        if nb.op == Op::Add {
            if let Some(k) = as_const(nb.b) {
                let s = add(a, nb.a);
                return add(s, konst(k, w));
            }
        }
        // x - (x / y) * y = x % y
        if let Some(r) = rest_of(a, b).or_else(|| rest_of(b, a)) {
            return r;
        }
        // x + (-1 * x) = 0, (x + y) - x = y
        if let Some(x) = neg_of(b) {
            if x == a {
                return konst(0, w);
            }
            if na.op == Op::Add && na.a == x {
                return na.b;
            }
            if na.op == Op::Add && na.b == x {
                return na.a;
            }
        }
        if let Some(x) = neg_of(a) {
            if x == b {
                return konst(0, w);
            }
            if nb.op == Op::Add && nb.a == x {
                return nb.b;
            }
            if nb.op == Op::Add && nb.b == x {
                return nb.a;
            }
        }
    }
    n2(Op::Add, w, a, b)
}
/// x + t, where t is the negative of y * (x / y)
fn rest_of(x: E, t: E) -> Option<E> {
    let n = node(t);
    if n.op != Op::Mul {
        return None;
    }
    let w = n.w;
    let low = |e: E| {
        let n = node(e);
        if n.op == Op::Concat && as_const(n.a) == Some(0) {
            n.b
        } else {
            e
        }
    };
    let try_q = |q: E, y: E| {
        let d = node(low(q));
        if d.op == Op::UDiv && zext(d.a, w) == x && zext(d.b, w) == y {
            Some(zext(urem(d.a, d.b), w))
        } else {
            None
        }
    };
    let k = as_const(n.b)?;
    if let Some(r) = try_q(n.a, konst(k.wrapping_neg(), w)) {
        return Some(r);
    }
    let p = node(n.a);
    if k == m(u128::MAX, w) && p.op == Op::Mul {
        return try_q(p.a, p.b).or_else(|| try_q(p.b, p.a));
    }
    None
}
fn neg_of(e: E) -> Option<E> {
    let n = node(e);
    if n.op == Op::Mul {
        if let Some(k) = as_const(n.b) {
            if k == m(u128::MAX, n.w) {
                return Some(n.a);
            }
        }
    }
    None
}
pub fn neg(a: E) -> E {
    let w = width(a);
    let na = node(a);
    if na.op == Op::Add {
        if as_const(na.b).is_some() {
            let (x, y) = (neg(na.a), neg(na.b));
            return add(x, y);
        }
    }
    mul(a, konst(u128::MAX, w))
}
pub fn sub(a: E, b: E) -> E {
    if a == b {
        return konst(0, width(a));
    }
    add(a, neg(b))
}
pub fn mul(a: E, b: E) -> E {
    let (a, b) = ord2(a, b);
    let w = width(a);
    if let Some(k) = as_const(b) {
        if k == 0 {
            return b;
        }
        if k == 1 {
            return a;
        }
        let na = node(a);
        if na.op == Op::Const {
            return konst(na.k.wrapping_mul(k), w);
        }
        if na.op == Op::Mul {
            if let Some(j) = as_const(na.b) {
                return mul(na.a, konst(j.wrapping_mul(k), w));
            }
        }
        if k.is_power_of_two() && w > 1 {
            return shl(a, konst(k.trailing_zeros() as u128, w));
        }
    }
    n2(Op::Mul, w, a, b)
}
fn is_zero_hi(e: E) -> Option<E> {
    // concat(0, x) => x
    let n = node(e);
    if n.op == Op::Concat && as_const(n.a) == Some(0) {
        Some(n.b)
    } else {
        None
    }
}
/// number of leading bits known to be zero
pub fn lead_zero(e: E) -> u32 {
    lead_zero_d(e, 8)
}
fn lead_zero_d(e: E, d: u32) -> u32 {
    let n = node(e);
    if d == 0 && n.op != Op::Const {
        return 0;
    }
    let lead_zero = |x: E| lead_zero_d(x, d - 1);
    match n.op {
        Op::Const => n.w - (128 - n.k.leading_zeros()).min(n.w),
        Op::Concat => {
            let z = lead_zero(n.a);
            if z == width(n.a) {
                z + lead_zero(n.b)
            } else {
                z
            }
        }
        Op::Ite => lead_zero(n.b).min(lead_zero(n.c)),
        Op::Add => {
            let z = lead_zero(n.a).min(lead_zero(n.b));
            z.saturating_sub(1)
        }
        Op::Mul => {
            let s = (n.w - lead_zero(n.a)) + (n.w - lead_zero(n.b));
            n.w.saturating_sub(s)
        }
        Op::UDiv => lead_zero(n.a),
        Op::URem => lead_zero(n.b).max(lead_zero(n.a)),
        Op::And => lead_zero(n.a).max(lead_zero(n.b)),
        Op::Or | Op::Xor => lead_zero(n.a).min(lead_zero(n.b)),
        _ => 0,
    }
}
pub fn udiv(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = as_const(b) {
        if let Some(j) = as_const(a) {
            if k != 0 {
                return konst(j / k, w);
            }
        }
        if k == 1 {
            return a;
        }
        if k.is_power_of_two() {
            return lshr(a, konst(k.trailing_zeros() as u128, w));
        }
    }
    // narrow when both have known leading zeros
    let z = lead_zero(a).min(lead_zero(b));
    if z > 0 && z < w {
        let q = udiv(extract(a, 0, w - z), extract(b, 0, w - z));
        return zext(q, w);
    }
    n2(Op::UDiv, w, a, b)
}
pub fn urem(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = as_const(b) {
        if let Some(j) = as_const(a) {
            if k != 0 {
                return konst(j % k, w);
            }
        }
        if k == 1 {
            return konst(0, w);
        }
        if k.is_power_of_two() {
            return and(a, konst(k - 1, w));
        }
    }
    let z = lead_zero(a).min(lead_zero(b));
    if z > 0 && z < w {
        let q = urem(extract(a, 0, w - z), extract(b, 0, w - z));
        return zext(q, w);
    }
    n2(Op::URem, w, a, b)
}
pub fn sdiv(a: E, b: E) -> E {
    n2(Op::SDiv, width(a), a, b)
}
pub fn srem(a: E, b: E) -> E {
    n2(Op::SRem, width(a), a, b)
}
pub fn shl(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = as_const(b) {
        if k == 0 {
            return a;
        }
        if k >= w as u128 {
            return konst(0, w);
        }
        return concat(extract(a, 0, w - k as u32), konst(0, k as u32));
    }
    if as_const(a) == Some(0) {
        return a;
    }
    n2(Op::Shl, w, a, b)
}
pub fn lshr(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = as_const(b) {
        if k == 0 {
            return a;
        }
        if k >= w as u128 {
            return konst(0, w);
        }
        return zext(extract(a, k as u32, w - k as u32), w);
    }
    if as_const(a) == Some(0) {
        return a;
    }
    n2(Op::LShr, w, a, b)
}
pub fn ashr(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = as_const(b) {
        if k == 0 {
            return a;
        }
        let k = (k.min(w as u128 - 1)) as u32;
        return sext(extract(a, k, w - k), w);
    }
    n2(Op::AShr, w, a, b)
}

pub fn eq(a: E, b: E) -> E {
    if a == b {
        return tru();
    }
    let (a, b) = ord2(a, b);
    let (na, nb) = (node(a), node(b));
    debug_assert_eq!(na.w, nb.w);
    if na.op == Op::Const && nb.op == Op::Const {
        return fls();
    }
    if na.w == 1 {
        if let Some(k) = as_const(b) {
            return if k == 1 { a } else { not(a) };
        }
        if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
            return fls();
        }
        return n2(Op::Eq, 1, a, b);
    }
    // split concatenations
    if na.op == Op::Concat || nb.op == Op::Concat {
        let cut = if na.op == Op::Concat { width(na.b) } else { width(nb.b) };
        let l = eq(extract(a, 0, cut), extract(b, 0, cut));
        if as_const(l) == Some(0) {
            return l;
        }
        let h = eq(extract(a, cut, na.w - cut), extract(b, cut, na.w - cut));
        return and(h, l);
    }
    if nb.op == Op::Const {
        match na.op {
            Op::Add => {
                if let Some(k) = as_const(na.b) {
                    return eq(na.a, konst(nb.k.wrapping_sub(k), na.w));
                }
            }
            Op::Xor => {
                if let Some(k) = as_const(na.b) {
                    return eq(na.a, konst(nb.k ^ k, na.w));
                }
                if nb.k == 0 {
                    return eq(na.a, na.b);
                }
            }
            Op::Not => return eq(na.a, konst(!nb.k, na.w)),
            Op::Or if nb.k == 0 => return and(eq(na.a, b), eq(na.b, b)),
            Op::Ite => {
                let (x, y) = (as_const(na.b), as_const(na.c));
                if x.is_some() || y.is_some() || node(na.b).op == Op::Ite || node(na.c).op == Op::Ite {
                    let (p, q) = (eq(na.b, b), eq(na.c, b));
                    return ite(na.a, p, q);
                }
            }
            Op::SExt => {
                let iw = width(na.a);
                let low = m(nb.k, iw);
                if m(sx(low, iw) as u128, na.w) == nb.k {
                    return eq(na.a, konst(low, iw));
                }
                return fls();
            }
            _ => {
                let lz = lead_zero(a);
                if lz > 0 && nb.k >> (na.w - lz) != 0 {
                    return fls();
                }
            }
        }
    } else {
        // x + k == x + j, x + y == x + z
        if na.op == Op::Add && nb.op == Op::Add {
            if na.a == nb.a {
                return eq(na.b, nb.b);
            }
            if na.b == nb.b {
                return eq(na.a, nb.a);
            }
        }
        if na.op == Op::Add && na.a == b {
            return eq(na.b, konst(0, na.w));
        }
        if nb.op == Op::Add && nb.a == a {
            return eq(nb.b, konst(0, na.w));
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let (p, q) = (eq(na.b, nb.b), eq(na.c, nb.c));
            return ite(na.a, p, q);
        }
        if na.op == Op::Ite && (na.b == b || na.c == b) {
            let (p, q) = (eq(na.b, b), eq(na.c, b));
            return ite(na.a, p, q);
        }
        if nb.op == Op::Ite && (nb.b == a || nb.c == a) {
            let (p, q) = (eq(nb.b, a), eq(nb.c, a));
            return ite(nb.a, p, q);
        }
    }
    n2(Op::Eq, 1, a, b)
}

/// Range known for an expression (unsigned), cheap.
fn umax(e: E) -> u128 {
    umax_d(e, 8)
}
fn umax_d(e: E, d: u32) -> u128 {
    let n = node(e);
    if d == 0 && n.op != Op::Const {
        return m(u128::MAX, n.w);
    }
    let umax = |x: E| umax_d(x, d - 1);
    match n.op {
        Op::Const => n.k,
        Op::Ite => umax(n.b).max(umax(n.c)),
        Op::Concat => {
            let lw = width(n.b);
            if n.w > 128 {
                return u128::MAX;
            }
            (umax(n.a) << lw) | umax(n.b)
        }
        Op::URem => {
            if let Some(k) = as_const(n.b) {
                if k > 0 {
                    return k - 1;
                }
            }
            m(u128::MAX, n.w)
        }
        Op::Extract if width(n.a) <= 128 => (umax(n.a) >> n.k as u32).min(m(u128::MAX, n.w)),
        Op::UDiv => match as_const(n.b) {
            Some(k) if k > 0 => umax(n.a) / k,
            _ => m(u128::MAX, n.w - lead_zero(e)),
        },
        Op::Add | Op::Mul if n.w <= 128 => {
            let (x, y) = (umax(n.a), umax(n.b));
            let r = if n.op == Op::Add { x.checked_add(y) } else { x.checked_mul(y) };
            match r {
                Some(r) if r <= m(u128::MAX, n.w) => r,
                _ => m(u128::MAX, n.w - lead_zero(e)),
            }
        }
        Op::And => umax(n.a).min(umax(n.b)),
        _ => {
            let z = lead_zero(e);
            m(u128::MAX, n.w - z)
        }
    }
}

pub fn ult(a: E, b: E) -> E {
    if a == b {
        return fls();
    }
    let w = width(a);
    let (ca, cb) = (as_const(a), as_const(b));
    if w == 1 {
        return and(not(a), b);
    }
    match (ca, cb) {
        (Some(x), Some(y)) => return if x < y { tru() } else { fls() },
        (_, Some(0)) => return fls(),
        (_, Some(1)) => return eq(a, konst(0, w)),
        (Some(k), _) if k == m(u128::MAX, w) => return fls(),
        (Some(0), _) => return not(eq(b, konst(0, w))),
        _ => {}
    }
    if let Some(k) = cb {
        if umax(a) < k {
            return tru();
        }
    }
    if let Some(k) = ca {
        if umax(b) <= k {
            return fls();
        }
    }
    let z = lead_zero(a).min(lead_zero(b));
    if z > 0 && z < w {
        return ult(extract(a, 0, w - z), extract(b, 0, w - z));
    }
    // identical low/high parts
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Concat && nb.op == Op::Concat && na.b == nb.b {
        return ult(na.a, nb.a);
    }
    if w > 128 {
        // split at 64-bit chunks
        let cut = w - if w % 64 == 0 { 64 } else { w % 64 };
        let (ah, al) = (extract(a, cut, w - cut), extract(a, 0, cut));
        let (bh, bl) = (extract(b, cut, w - cut), extract(b, 0, cut));
        let (lh, eh, ll) = (ult(ah, bh), eq(ah, bh), ult(al, bl));
        return or(lh, and(eh, ll));
    }
    // ite of constants against a constant
    if na.op == Op::Ite && cb.is_some() && (as_const(na.b).is_some() || as_const(na.c).is_some()) {
        let (p, q) = (ult(na.b, b), ult(na.c, b));
        return ite(na.a, p, q);
    }
    if nb.op == Op::Ite && ca.is_some() && (as_const(nb.b).is_some() || as_const(nb.c).is_some()) {
        let (p, q) = (ult(a, nb.b), ult(a, nb.c));
        return ite(nb.a, p, q);
    }
    n2(Op::Ult, 1, a, b)
}
pub fn ule(a: E, b: E) -> E {
    not(ult(b, a))
}
pub fn slt(a: E, b: E) -> E {
    if a == b {
        return fls();
    }
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    if na.op == Op::Const && nb.op == Op::Const {
        return if sx(na.k, w) < sx(nb.k, w) { tru() } else { fls() };
    }
    if w > 1 && lead_zero(a) > 0 && lead_zero(b) > 0 {
        return ult(a, b);
    }
    if nb.op == Op::Const && nb.k == 0 && w > 1 {
        return extract(a, w - 1, 1);
    }
    if na.op == Op::Const && na.k == m(u128::MAX, w) && w > 1 {
        // -1 < b  <=> b >= 0
        return not(extract(b, w - 1, 1));
    }
    if na.op == Op::Ite && (as_const(na.b).is_some() || as_const(na.c).is_some()) && nb.op == Op::Const {
        let (p, q) = (slt(na.b, b), slt(na.c, b));
        return ite(na.a, p, q);
    }
    if nb.op == Op::Ite && (as_const(nb.b).is_some() || as_const(nb.c).is_some()) && na.op == Op::Const {
        let (p, q) = (slt(a, nb.b), slt(a, nb.c));
        return ite(nb.a, p, q);
    }
    n2(Op::Slt, 1, a, b)
}
pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = as_const(c) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let nc = node(c);
    if nc.op == Op::Not {
        return ite(nc.a, b, a);
    }
    let w = width(a);
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or(c, b),
            (Some(0), _) => return and(not(c), b),
            (_, Some(1)) => return or(not(c), a),
            (_, Some(0)) => return and(c, a),
            _ => {}
        }
        if a == c {
            return or(c, b);
        }
        if b == c {
            return and(c, a);
        }
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Ite && na.a == c {
        return ite(c, na.b, b);
    }
    if nb.op == Op::Ite && nb.a == c {
        return ite(c, a, nb.c);
    }
    mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
}

pub fn bswap(e: E) -> E {
    let w = width(e);
    let mut r = extract(e, 0, 8);
    let mut i = 8;
    while i < w {
        r = concat(r, extract(e, i, 8));
        i += 8;
    }
    r
}

/// replace subterms in the upper levels of `e` whose value is known
pub fn simp(e: E, known: &FxMap<E, u128>, depth: u32) -> E {
    let n = node(e);
    if n.op == Op::Const {
        return e;
    }
    if let Some(k) = known.get(&e) {
        return konst(*k, n.w);
    }
    if depth == 0 {
        return e;
    }
    let r = |x: E| simp(x, known, depth - 1);
    match n.op {
        Op::Not => {
            let a = r(n.a);
            if a == n.a { e } else { not(a) }
        }
        Op::Extract => {
            let a = r(n.a);
            if a == n.a { e } else { extract(a, n.k as u32, n.w) }
        }
        Op::Ite => {
            let (a, b, c) = (r(n.a), r(n.b), r(n.c));
            if (a, b, c) == (n.a, n.b, n.c) { e } else { ite(a, b, c) }
        }
        Op::Add | Op::Concat | Op::And | Op::Or | Op::Xor => {
            let (a, b) = (r(n.a), r(n.b));
            if (a, b) == (n.a, n.b) {
                return e;
            }
            match n.op {
                Op::Add => add(a, b),
                Op::Concat => concat(a, b),
                Op::And => and(a, b),
                Op::Or => or(a, b),
                _ => xor(a, b),
            }
        }
        _ => e,
    }
}

/// replace `from` by `to` in the upper levels of `e`
pub fn subst(e: E, from: E, to: E, depth: u32) -> E {
    if e == from {
        return to;
    }
    if depth == 0 {
        return e;
    }
    let n = node(e);
    let r = |x: E| subst(x, from, to, depth - 1);
    match n.op {
        Op::Const | Op::Var => e,
        Op::Not => {
            let a = r(n.a);
            if a == n.a { e } else { not(a) }
        }
        Op::Extract => {
            let a = r(n.a);
            if a == n.a { e } else { extract(a, n.k as u32, n.w) }
        }
        Op::SExt => {
            let a = r(n.a);
            if a == n.a { e } else { sext(a, n.w) }
        }
        Op::Ite => {
            let (a, b, c) = (r(n.a), r(n.b), r(n.c));
            if (a, b, c) == (n.a, n.b, n.c) { e } else { ite(a, b, c) }
        }
        Op::Add | Op::Concat | Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ult | Op::Slt => {
            let (a, b) = (r(n.a), r(n.b));
            if (a, b) == (n.a, n.b) {
                return e;
            }
            match n.op {
                Op::Add => add(a, b),
                Op::Concat => concat(a, b),
                Op::And => and(a, b),
                Op::Or => or(a, b),
                Op::Xor => xor(a, b),
                Op::Eq => eq(a, b),
                Op::Ult => ult(a, b),
                _ => slt(a, b),
            }
        }
        _ => e,
    }
}

pub fn varset(e: E) -> Rc<Vec<u32>> {
    if let Some(v) = cx().vars.get(&e) {
        return v.clone();
    }
    let n = node(e);
    let r: Rc<Vec<u32>> = match n.op {
        Op::Const => cx().empty.clone(),
        Op::Var => Rc::new(vec![n.a]),
        Op::Not | Op::Extract | Op::SExt => varset(n.a),
        Op::Ite => {
            let x = merge(&varset(n.a), &varset(n.b));
            merge(&x, &varset(n.c))
        }
        _ => {
            let (x, y) = (varset(n.a), varset(n.b));
            merge(&x, &y)
        }
    };
    cx().vars.insert(e, r.clone());
    r
}
fn merge(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if b.is_empty() || Rc::ptr_eq(a, b) {
        return a.clone();
    }
    if a.is_empty() {
        return b.clone();
    }
    let mut o = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            o.push(a[i]);
            i += 1;
        } else if a[i] > b[j] {
            o.push(b[j]);
            j += 1;
        } else {
            o.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    o.extend_from_slice(&a[i..]);
    o.extend_from_slice(&b[j..]);
    if o.len() == a.len() {
        return a.clone();
    }
    if o.len() == b.len() {
        return b.clone();
    }
    Rc::new(o)
}

/// A model: variable index -> value (absent = 0). Evaluation results are memoised per model.
#[derive(Default)]
pub struct Model {
    pub v: FxMap<u32, u128>,
    memo: std::cell::RefCell<FxMap<E, u128>>,
}
impl Model {
    pub fn new(v: FxMap<u32, u128>) -> Model {
        Model { v, memo: Default::default() }
    }
    pub fn clone_vals(&self) -> FxMap<u32, u128> {
        self.v.clone()
    }
    /// value of an expression of width <= 128
    pub fn eval(&self, e: E) -> u128 {
        let n = node(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m(*self.v.get(&n.a).unwrap_or(&0), n.w),
            _ => {}
        }
        if let Some(v) = self.memo.borrow().get(&e) {
            return *v;
        }
        let w = n.w;
        let r = match n.op {
            Op::Add => self.eval(n.a).wrapping_add(self.eval(n.b)),
            Op::Mul => self.eval(n.a).wrapping_mul(self.eval(n.b)),
            Op::UDiv => {
                let (a, b) = (self.eval(n.a), self.eval(n.b));
                if b == 0 {
                    u128::MAX
                } else {
                    a / b
                }
            }
            Op::URem => {
                let (a, b) = (self.eval(n.a), self.eval(n.b));
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (a, b) = (sx(self.eval(n.a), w), sx(self.eval(n.b), w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        u128::MAX
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            Op::SRem => {
                let (a, b) = (sx(self.eval(n.a), w), sx(self.eval(n.b), w));
                if b == 0 {
                    a as u128
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            Op::Shl => {
                let (a, b) = (self.eval(n.a), self.eval(n.b));
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                let (a, b) = (self.eval(n.a), self.eval(n.b));
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let (a, b) = (self.eval(n.a), self.eval(n.b));
                (sx(a, w) >> b.min(w as u128 - 1)) as u128
            }
            Op::And => self.eval(n.a) & self.eval(n.b),
            Op::Or => self.eval(n.a) | self.eval(n.b),
            Op::Xor => self.eval(n.a) ^ self.eval(n.b),
            Op::Not => !self.eval(n.a),
            Op::Eq => {
                let aw = width(n.a);
                if aw <= 128 {
                    (self.eval(n.a) == self.eval(n.b)) as u128
                } else {
                    let mut i = 0;
                    let mut r = 1;
                    while i < aw {
                        let k = (aw - i).min(64);
                        let (x, y) = (extract(n.a, i, k), extract(n.b, i, k));
                        if self.eval(x) != self.eval(y) {
                            r = 0;
                            break;
                        }
                        i += k;
                    }
                    r
                }
            }
            Op::Ult => (self.eval(n.a) < self.eval(n.b)) as u128,
            Op::Slt => {
                let aw = width(n.a);
                (sx(self.eval(n.a), aw) < sx(self.eval(n.b), aw)) as u128
            }
            Op::Ite => {
                if self.eval(n.a) == 1 {
                    self.eval(n.b)
                } else {
                    self.eval(n.c)
                }
            }
            Op::Concat => {
                assert!(w <= 128, "wide eval");
                (self.eval(n.a) << width(n.b)) | self.eval(n.b)
            }
            Op::Extract => {
                assert!(width(n.a) <= 128, "wide extract eval");
                self.eval(n.a) >> n.k
            }
            Op::SExt => sx(self.eval(n.a), width(n.a)) as u128,
            Op::Const | Op::Var => unreachable!(),
        };
        let r = m(r, w);
        self.memo.borrow_mut().insert(e, r);
        r
    }
    pub fn holds(&self, e: E) -> bool {
        self.eval(e) == 1
    }
}

pub fn show(e: E, depth: u32) -> String {
    let n = node(e);
    if depth == 0 {
        return format!("#{}", e);
    }
    match n.op {
        Op::Const => format!("{}:{}", n.k, n.w),
        Op::Var => format!("v{}:{}", n.a, n.w),
        Op::Not => format!("!{}", show(n.a, depth - 1)),
        Op::Extract => format!("{}[{}+{}]", show(n.a, depth - 1), n.k, n.w),
        Op::SExt => format!("sext{}({})", n.w, show(n.a, depth - 1)),
        Op::Ite => format!("ite({}, {}, {})", show(n.a, depth - 1), show(n.b, depth - 1), show(n.c, depth - 1)),
        _ => format!("{:?}({}, {})", n.op, show(n.a, depth - 1), show(n.b, depth - 1)),
    }
}
