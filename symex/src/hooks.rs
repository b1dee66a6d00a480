//! Native models: LLVM intrinsics, libc, allocator, panics, the harness interface, hashing.
use crate::code::*;
use crate::exec::*;
use crate::expr::*;
use crate::solver::Res;
use std::rc::Rc;

type R<T> = Result<T, Stop>;

macro_rules! ids { ($($n:ident),*) => { ids!(@ 0u32; $($n,)*); };
  (@ $i:expr; $n:ident, $($r:ident,)*) => { pub const $n: u32 = $i; ids!(@ $i + 1; $($r,)*); };
  (@ $i:expr;) => {}; }
ids!(
    NOP0, MEMCPY, MEMSET, MEMCMP, BCMP, STRLEN, MALLOC, CALLOC, REALLOC, FREE, MEMALIGN, PANIC, ABORT, OVF, SAT, MINMAX, BITCNT, BSWAP, FSH, ABS, ASSUME, EXPECT, TLS, TRAP, ISCONST, OBJSIZE, CMP3, REDUCE, SYM_UINT, SYM_BYTES, SYM_ASSUME, SYM_CHECK, SYM_REACH, SYM_OBSERVE, SYM_FORK, SYM_ALLOC_LIMIT, SYM_IS, SYM_UF, COMPRESS, HASH_NOP, HASH_FINISH, GETRANDOM, SYSCALL, ALIAS, MEMCHR, RET0, SYM_LIVE, BITREV, SYM_MEMEQ, SYM_ITE, DECFMT, SYM_PARAM
);

fn has(n: &str, p: &[&str]) -> bool {
    let mut i = 0;
    for x in p {
        match n[i..].find(x) {
            Some(k) => i += k + x.len(),
            None => return false,
        }
    }
    true
}

/// functions whose definitions are dropped before optimisation, because a model replaces them
pub fn is_stubbed(n: &str) -> bool {
    n.contains("11compress256") && n.contains("4sha2") || hasher_fn(n).is_some() || cpu_detect(n)
}

/// run-time detection of processor features: none beyond the baseline
fn cpu_detect(n: &str) -> bool {
    n.contains("10std_detect") && n.ends_with("21detect_and_initialize")
}

/// decimal rendering of an integer (error message texts): Some(width)
fn decfmt(n: &str) -> Option<u32> {
    let i = n.find("4core3fmt3num")?;
    if !n.ends_with("7Display3fmt") {
        return None;
    }
    let t = &n[..n.len() - "7Display3fmt".len()];
    let t = match t.rfind("B") {
        // back reference: `<ty>B<base62>_`
        Some(k) if k > i => &t[..k],
        _ => return None,
    };
    Some(match t.chars().last()? {
        'y' | 'j' | 'x' | 'i' => 64,
        'm' | 'l' => 32,
        't' | 's' => 16,
        'h' | 'a' => 8,
        'o' | 'n' => 128,
        _ => return None,
    })
}

pub fn keep_out_of_line(n: &str) -> bool {
    decfmt(n).is_some()
}

fn hasher_fn(n: &str) -> Option<u32> {
    // hashers of hash maps: any hash function consistent with Eq is a legal one; ours is constant
    for h in ["13DefaultHasher", "7AHasher", "12SipHasher13"] {
        if n.starts_with("_R") && n.contains(h) && n.contains("6Hasher") {
            if has(n, &[h, "6Hasher6finish"]) {
                return Some(HASH_FINISH);
            }
            for w in ["6Hasher5write", "6Hasher9write_str", "6Hasher8write_u8", "6Hasher9write_u16", "6Hasher9write_u32", "6Hasher9write_u64", "6Hasher10write_u128", "6Hasher11write_usize", "6Hasher11write_isize", "6Hasher19write_length_prefix"] {
                if has(n, &[h, w]) {
                    return Some(HASH_NOP);
                }
            }
        }
    }
    None
}

pub fn hook_for(n: &str, defined: bool) -> Option<u32> {
    if let Some(r) = n.strip_prefix("llvm.") {
        let b = r;
        let st = |p: &str| b.starts_with(p);
        return Some(if st("memcpy") || st("memmove") {
            MEMCPY
        } else if st("memset") {
            MEMSET
        } else if st("lifetime") || st("dbg") || st("experimental.noalias") || st("donothing") || st("invariant") || st("prefetch") || st("va_") || st("stackrestore") {
            NOP0
        } else if st("assume") {
            ASSUME
        } else if st("expect") {
            EXPECT
        } else if b.contains("with.overflow") {
            OVF
        } else if st("uadd.sat") || st("usub.sat") || st("sadd.sat") || st("ssub.sat") {
            SAT
        } else if st("umin") || st("umax") || st("smin") || st("smax") {
            MINMAX
        } else if st("ctpop") || st("ctlz") || st("cttz") {
            BITCNT
        } else if st("bswap") {
            BSWAP
        } else if st("bitreverse") {
            BITREV
        } else if st("fshl") || st("fshr") {
            FSH
        } else if st("abs") {
            ABS
        } else if st("threadlocal.address") || st("launder") || st("strip") || st("ptrmask") {
            TLS
        } else if st("trap") || st("ubsantrap") {
            TRAP
        } else if st("is.constant") {
            ISCONST
        } else if st("objectsize") {
            OBJSIZE
        } else if st("ucmp") || st("scmp") {
            CMP3
        } else if st("vector.reduce") {
            REDUCE
        } else {
            return None;
        });
    }
    if let Some(h) = hasher_fn(n) {
        return Some(h);
    }
    if n.contains("11compress256") && n.contains("4sha2") {
        return Some(COMPRESS);
    }
    if decfmt(n).is_some() {
        return Some(DECFMT);
    }
    if cpu_detect(n) {
        return Some(RET0);
    }
    if defined {
        return None;
    }
    Some(match n {
        "memcpy" | "memmove" => MEMCPY,
        "memset" => MEMSET,
        "memcmp" => MEMCMP,
        "bcmp" => BCMP,
        "strlen" => STRLEN,
        "memchr" => MEMCHR,
        "malloc" => MALLOC,
        "calloc" => CALLOC,
        "realloc" => REALLOC,
        "free" => FREE,
        "posix_memalign" => MEMALIGN,
        "abort" | "exit" | "_exit" => ABORT,
        "sym_uint" => SYM_UINT,
        "sym_bytes" => SYM_BYTES,
        "sym_assume" => SYM_ASSUME,
        "sym_check" => SYM_CHECK,
        "sym_reach" => SYM_REACH,
        "sym_observe" => SYM_OBSERVE,
        "sym_fork" => SYM_FORK,
        "sym_alloc_limit" => SYM_ALLOC_LIMIT,
        "sym_is_symbolic" => SYM_IS,
        "sym_uf" => SYM_UF,
        "sym_memeq" => SYM_MEMEQ,
        "sym_param" => SYM_PARAM,
        "sym_ite" => SYM_ITE,
        "sym_live_alloc" => SYM_LIVE,
        "getrandom" => GETRANDOM,
        "syscall" => SYSCALL,
        "__cxa_thread_atexit_impl" | "pthread_atfork" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => RET0,
        _ if n.starts_with("rustsecp256k1_") => ALIAS,
        _ if n.starts_with("_R") || n.starts_with("_ZN") => PANIC, // stubbed diverging Rust functions
        _ => return None,
    })
}

pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts: Vec<&str> = vec![];
    while i < b.len() {
        let c = b[i];
        if c == b's' && i > 0 {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 14 && b.get(j + 1).map(|x| x.is_ascii_digit() || x.is_ascii_uppercase()).unwrap_or(false) {
                i = j + 1;
                continue;
            }
        }
        if c.is_ascii_digit() && c != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l > 0 && j + l <= b.len() {
                parts.push(&n[j..j + l]);
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    parts.join("::")
}

fn arg_e(a: &(V, u32)) -> E {
    v_expr(&a.0, a.1)
}

fn str_arg(x: &Exec, st: &State, p: &V, l: &V) -> String {
    match (p, l) {
        (V::C(p), V::C(l)) if *l < 4096 => x.read_conc(st, *p as u64, *l as u64).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default(),
        _ => String::new(),
    }
}

fn overflow_op(name: &str, w: u32, a: E, b: E) -> (E, E) {
    let n = &name[5..];
    let r;
    let o;
    if n.starts_with("uadd") {
        r = add(a, b);
        o = ult(r, a);
        // widths below 128 get the wide form only when it is simpler; carry form is canonical
        (r, if lead_zero(a) > 0 && lead_zero(b) > 0 { fls() } else { o })
    } else if n.starts_with("usub") {
        (sub(a, b), ult(a, b))
    } else if n.starts_with("umul") {
        let (la, lb) = (lead_zero(a), lead_zero(b));
        if la + lb >= w {
            return (mul(a, b), fls());
        }
        if w <= 64 {
            let p = mul(zext(a, 2 * w), zext(b, 2 * w));
            r = extract(p, 0, w);
            o = not(eq(extract(p, w, w), konst(0, w)));
            (r, o)
        } else {
            r = mul(a, b);
            // a*b overflows iff b != 0 and a > MAX / b
            let z = eq(b, konst(0, w));
            let lim = udiv(konst(u128::MAX, w), ite(z, konst(1, w), b));
            (r, and(not(z), ult(lim, a)))
        }
    } else if n.starts_with("sadd") {
        let (x, y) = (sext(a, w + 1), sext(b, w + 1));
        let s = add(x, y);
        r = add(a, b);
        (r, not(eq(sext(r, w + 1), s)))
    } else if n.starts_with("ssub") {
        let (x, y) = (sext(a, w + 1), sext(b, w + 1));
        let s = sub(x, y);
        r = sub(a, b);
        (r, not(eq(sext(r, w + 1), s)))
    } else {
        let (x, y) = (sext(a, 2 * w), sext(b, 2 * w));
        let s = mul(x, y);
        r = mul(a, b);
        (r, not(eq(sext(r, 2 * w), s)))
    }
}

fn bitcount(name: &str, w: u32, a: E) -> E {
    let n = &name[5..];
    let mut r;
    if n.starts_with("ctpop") {
        r = konst(0, w);
        for i in 0..w {
            r = add(r, zext(extract(a, i, 1), w));
        }
    } else if n.starts_with("ctlz") {
        r = konst(w as u128, w);
        for i in 0..w {
            r = ite(extract(a, i, 1), konst((w - 1 - i) as u128, w), r);
        }
    } else {
        r = konst(w as u128, w);
        for i in (0..w).rev() {
            r = ite(extract(a, i, 1), konst(i as u128, w), r);
        }
    }
    r
}

fn lift1(v: &V, f: &mut dyn FnMut(E) -> E, w: u32) -> V {
    match v {
        V::A(l) => V::A(Rc::new(l.iter().map(|x| mkv(f(v_expr(x, w)))).collect())),
        _ => mkv(f(v_expr(v, w))),
    }
}

/// element width of a (possibly vector) intrinsic, from its name suffix (.i64, .v16i8)
fn suffix_w(name: &str) -> u32 {
    let s = name.rsplit('.').next().unwrap();
    let s = match s.find('i') {
        Some(k) => &s[k + 1..],
        None => return 64,
    };
    s.parse().unwrap_or(64)
}

pub fn call(x: &mut Exec, st: &mut State, h: u32, a: &[(V, u32)], ret: &Rc<T>, fi: u32) -> R<Option<V>> {
    let zero = Ok(Some(V::C(0)));
    match h {
        NOP0 | RET0 | HASH_NOP => zero,
        HASH_FINISH => zero,
        EXPECT | TLS => Ok(Some(a[0].0.clone())),
        ISCONST => Ok(Some(V::C(matches!(a[0].0, V::C(_)) as u128))),
        OBJSIZE => Ok(Some(V::C(u64::MAX as u128))),
        ASSUME => {
            if let V::C(0) = a[0].0 {
                return Err(Stop::Viol("unreachable".into(), "assumption of the optimiser violated".into()));
            }
            zero
        }
        TRAP | ABORT => Err(Stop::Viol("abort".into(), "process abort".into())),
        PANIC => {
            let name = demangle(&x.p.m.funcs[fi as usize].name);
            let mut msg = name.clone();
            if a.len() >= 2 && (name.contains("panicking::panic") || name.contains("expect_failed") || name.contains("unwrap_failed")) && !name.contains("bounds_check") && !name.contains("panic_fmt") {
                let s = str_arg(x, st, &a[0].0, &a[1].0);
                if !s.is_empty() {
                    msg = format!("{}: {}", name, s);
                }
            }
            // source location: last argument
            if let Some((V::C(l), 64)) = a.last().map(|y| (y.0.clone(), y.1)) {
                if let Ok(b) = x.read_conc(st, l as u64, 24) {
                    let p = u64::from_le_bytes(b[0..8].try_into().unwrap());
                    let n = u64::from_le_bytes(b[8..16].try_into().unwrap());
                    let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                    if n < 300 {
                        if let Ok(f) = x.read_conc(st, p, n) {
                            if let Ok(f) = String::from_utf8(f) {
                                msg = format!("{} at {}:{}", msg, f, line);
                            }
                        }
                    }
                }
            }
            Err(Stop::Viol("panic".into(), msg))
        }
        MEMCPY => {
            let (d, s, n) = (x.conc(st, &a[0].0)?, x.conc(st, &a[1].0)?, x.conc(st, &a[2].0)?);
            x.mem_copy(st, d, s, n)?;
            Ok(Some(a[0].0.clone()))
        }
        MEMSET => {
            let (d, n) = (x.conc(st, &a[0].0)?, x.conc(st, &a[2].0)?);
            let v = if a[1].1 > 8 { mkv(extract(arg_e(&a[1]), 0, 8)) } else { a[1].0.clone() };
            x.mem_set(st, d, &v, n)?;
            Ok(Some(a[0].0.clone()))
        }
        MEMCMP | BCMP => {
            let (p, q, n) = (x.conc(st, &a[0].0)?, x.conc(st, &a[1].0)?, x.conc(st, &a[2].0)?);
            Ok(Some(x.mem_cmp(st, p, q, n, h == BCMP)?))
        }
        STRLEN => {
            let p = x.conc(st, &a[0].0)?;
            let mut n = 0;
            loop {
                let b = x.read_conc(st, p + n, 1)?;
                if b[0] == 0 {
                    return Ok(Some(V::C(n as u128)));
                }
                n += 1;
            }
        }
        MALLOC | CALLOC | MEMALIGN => {
            let (sv, align) = match h {
                MALLOC => (a[0].0.clone(), 16),
                CALLOC => (a[1].0.clone(), 16),
                _ => (a[2].0.clone(), 16),
            };
            let align = if h == MEMALIGN { x.conc(st, &a[1].0)? } else { align };
            let cnt = if h == CALLOC { x.conc(st, &a[0].0)? } else { 1 };
            let pp = if h == MEMALIGN { x.conc(st, &a[0].0)? } else { 0 };
            let n = alloc_size(x, st, &sv)?.saturating_mul(cnt);
            if n > st.alloc_limit {
                return Err(Stop::Viol("alloc".into(), format!("allocation beyond the limit of {} bytes", st.alloc_limit)));
            }
            st.live_alloc += n;
            let p = x.alloc(st, n, align, true);
            if h == MEMALIGN {
                let by: Vec<E> = p.to_le_bytes().iter().map(|b| konst(*b as u128, 8)).collect();
                x.write_byte_exprs(st, pp, &by)?;
                return zero;
            }
            Ok(Some(V::C(p as u128)))
        }
        REALLOC => {
            let p = x.conc(st, &a[0].0)?;
            let n = alloc_size(x, st, &a[1].0)?;
            if n > st.alloc_limit {
                return Err(Stop::Viol("alloc".into(), format!("allocation beyond the limit of {} bytes", st.alloc_limit)));
            }
            let old = match st.mem.get(&p) {
                Some(o) if o.heap => o.size,
                _ => return Err(Stop::Viol("memory".into(), "realloc of a pointer that is not a live allocation".into())),
            };
            let q = x.alloc(st, n, 16, true);
            x.mem_copy(st, q, p, old.min(n))?;
            st.mem.remove(&p);
            Ok(Some(V::C(q as u128)))
        }
        FREE => {
            let p = x.conc(st, &a[0].0)?;
            if p != 0 {
                match st.mem.get(&p) {
                    Some(o) if o.heap => {
                        st.live_alloc = st.live_alloc.saturating_sub(o.size);
                        st.mem.remove(&p);
                    }
                    _ => return Err(Stop::Viol("memory".into(), "free of a pointer that is not a live allocation".into())),
                }
            }
            zero
        }
        OVF => {
            let name = x.p.m.funcs[fi as usize].name.clone();
            let w = a[0].1;
            if w == 0 {
                return Err(Stop::Err("vector overflow op".into()));
            }
            let (r, o) = overflow_op(&name, w, arg_e(&a[0]), arg_e(&a[1]));
            Ok(Some(V::A(Rc::new(vec![mkv(r), mkv(o)]))))
        }
        SAT => {
            let name = x.p.m.funcs[fi as usize].name.clone();
            let w = suffix_w(&name);
            let f = |p: &V, q: &V| -> V {
                let (p, q) = (v_expr(p, w), v_expr(q, w));
                if name.contains("uadd") {
                    let (r, o) = overflow_op("llvm.uadd", w, p, q);
                    mkv(ite(o, konst(u128::MAX, w), r))
                } else {
                    mkv(ite(ult(p, q), konst(0, w), sub(p, q)))
                }
            };
            if !name.contains(".u") {
                return Err(Stop::Err("signed saturation".into()));
            }
            Ok(Some(lift2(&a[0].0, &a[1].0, &f)))
        }
        MINMAX => {
            let name = x.p.m.funcs[fi as usize].name.clone();
            let w = suffix_w(&name);
            let f = |p: &V, q: &V| -> V {
                let (p, q) = (v_expr(p, w), v_expr(q, w));
                let n = &name[5..];
                let c = if n.starts_with('u') { ult(p, q) } else { slt(p, q) };
                if n[1..].starts_with("min") {
                    mkv(ite(c, p, q))
                } else {
                    mkv(ite(c, q, p))
                }
            };
            Ok(Some(lift2(&a[0].0, &a[1].0, &f)))
        }
        BITCNT => {
            let name = x.p.m.funcs[fi as usize].name.clone();
            let w = suffix_w(&name);
            Ok(Some(lift1(&a[0].0, &mut |e| bitcount(&name, w, e), w)))
        }
        BSWAP => {
            let w = suffix_w(&x.p.m.funcs[fi as usize].name);
            Ok(Some(lift1(&a[0].0, &mut bswap, w)))
        }
        BITREV => {
            let w = suffix_w(&x.p.m.funcs[fi as usize].name);
            Ok(Some(lift1(
                &a[0].0,
                &mut |e| {
                    let mut r = extract(e, 0, 1);
                    for i in 1..w {
                        r = concat(r, extract(e, i, 1));
                    }
                    r
                },
                w,
            )))
        }
        FSH => {
            let name = x.p.m.funcs[fi as usize].name.clone();
            let w = suffix_w(&name);
            let left = name.contains("fshl");
            let mut one = |x: &mut Exec, p: &V, q: &V, k: &V| -> R<V> {
                let k = (x.conc(st, k)? % w as u64) as u32;
                let c = concat(v_expr(p, w), v_expr(q, w));
                Ok(mkv(if left { extract(c, w - k, w) } else { extract(c, k, w) }))
            };
            Ok(Some(match (&a[0].0, &a[1].0, &a[2].0) {
                (V::A(p), V::A(q), V::A(k)) => V::A(Rc::new((0..p.len()).map(|i| one(x, &p[i], &q[i], &k[i])).collect::<R<Vec<V>>>()?)),
                (p, q, k) => one(x, p, q, k)?,
            }))
        }
        ABS => {
            let w = suffix_w(&x.p.m.funcs[fi as usize].name);
            Ok(Some(lift1(
                &a[0].0,
                &mut |e| {
                    let s = extract(e, w - 1, 1);
                    ite(s, neg(e), e)
                },
                w,
            )))
        }
        CMP3 => {
            let name = x.p.m.funcs[fi as usize].name.clone();
            let w = a[0].1;
            let (p, q) = (arg_e(&a[0]), arg_e(&a[1]));
            let rw = ret.w();
            if w == 0 || rw == 0 {
                return Err(Stop::Err("vector cmp".into()));
            }
            let lt = if name.contains("ucmp") { ult(p, q) } else { slt(p, q) };
            let e = eq(p, q);
            Ok(Some(mkv(ite(e, konst(0, rw), ite(lt, konst(u128::MAX, rw), konst(1, rw))))))
        }
        REDUCE => {
            let name = x.p.m.funcs[fi as usize].name.clone();
            let w = suffix_w(&name);
            let l = match &a[0].0 {
                V::A(l) => l.clone(),
                _ => return Err(Stop::Err("reduce".into())),
            };
            let mut r = v_expr(&l[0], w);
            for v in &l[1..] {
                let e = v_expr(v, w);
                r = if name.contains(".or.") {
                    or(r, e)
                } else if name.contains(".and.") {
                    and(r, e)
                } else if name.contains(".add.") {
                    add(r, e)
                } else if name.contains(".xor.") {
                    xor(r, e)
                } else if name.contains(".umax.") {
                    ite(ult(r, e), e, r)
                } else if name.contains(".umin.") {
                    ite(ult(r, e), r, e)
                } else {
                    return Err(Stop::Err(name));
                };
            }
            Ok(Some(mkv(r)))
        }
        GETRANDOM => {
            let (p, n) = (x.conc(st, &a[0].0)?, x.conc(st, &a[1].0)?);
            x.mem_set(st, p, &V::C(0x5a), n)?;
            Ok(Some(V::C(n as u128)))
        }
        SYSCALL => {
            // getrandom(2) only
            let nr = x.conc(st, &a[0].0)?;
            if nr != 318 {
                return Err(Stop::Err(format!("syscall {}", nr)));
            }
            let (p, n) = (x.conc(st, &a[1].0)?, x.conc(st, &a[2].0)?);
            if n > 0 {
                x.mem_set(st, p, &V::C(0x5a), n)?;
            }
            Ok(Some(V::C(n as u128)))
        }
        MEMCHR => Err(Stop::Err("memchr".into())),
        // ----- harness interface -----
        SYM_UINT => {
            let w = x.conc(st, &a[0].0)? as u32;
            let pos = st.nin;
            st.nin += 1;
            let e = x.input_var(pos, 0, w);
            let nb = (w + 7) / 8;
            let z = zext(e, nb * 8);
            for i in 0..nb {
                st.inputs.push(extract(z, i * 8, 8));
            }
            Ok(Some(mkv(zext(e, 64))))
        }
        SYM_BYTES => {
            let (p, n) = (x.conc(st, &a[0].0)?, x.conc(st, &a[1].0)?);
            let mut by = vec![];
            let mut i = 0;
            while i < n {
                let k = (n - i).min(8) as u32;
                let pos = st.nin;
                st.nin += 1;
                let e = x.input_var(pos, 1, k * 8);
                for j in (0..k).rev() {
                    by.push(extract(e, j * 8, 8));
                }
                i += k as u64;
            }
            st.inputs.extend_from_slice(&by);
            x.write_byte_exprs(st, p, &by)?;
            zero
        }
        SYM_ASSUME => {
            let c = extract(arg_e(&a[0]), 0, 1);
            x.assume(st, c)?;
            zero
        }
        SYM_CHECK => {
            let c = extract(arg_e(&a[0]), 0, 1);
            let msg = str_arg(x, st, &a[1].0, &a[2].0);
            x.check_prop(st, c, &msg)?;
            zero
        }
        SYM_REACH => {
            let msg = str_arg(x, st, &a[0].0, &a[1].0);
            Rc::make_mut(&mut st.reached).insert(msg);
            zero
        }
        SYM_OBSERVE => {
            let (p, n) = (x.conc(st, &a[2].0)?, x.conc(st, &a[3].0)?);
            let l = str_arg(x, st, &a[0].0, &a[1].0);
            let bytes = x.read_byte_exprs(st, p, n)?;
            Rc::make_mut(&mut st.obs).push(Obs { label: l, bytes });
            zero
        }
        SYM_FORK => {
            let v = x.conc(st, &a[0].0)?;
            Ok(Some(V::C(v as u128)))
        }
        SYM_ALLOC_LIMIT => {
            st.alloc_limit = x.conc(st, &a[0].0)?;
            zero
        }
        SYM_LIVE => Ok(Some(V::C(st.live_alloc as u128))),
        SYM_PARAM => Ok(Some(V::C(x.param as u128))),
        DECFMT => {
            // decimal text of a symbolic integer (only ever part of a message): rendered as nothing
            let w = decfmt(&x.p.m.funcs[fi as usize].name).unwrap();
            let p = x.conc(st, &a[0].0)?;
            let by = x.read_byte_exprs(st, p, (w / 8) as u64)?;
            if by.iter().any(|e| as_const(*e).is_none()) {
                return zero;
            }
            Ok(None)
        }
        SYM_IS => Ok(Some(V::C(1))),
        SYM_MEMEQ => {
            let (p, q, n) = (x.conc(st, &a[0].0)?, x.conc(st, &a[1].0)?, x.conc(st, &a[2].0)?);
            let r = x.mem_cmp(st, p, q, n, true)?;
            let e = v_expr(&r, 32);
            let b = eq(e, konst(0, 32));
            Ok(Some(mkv(if ret.w() == 1 { b } else { zext(b, ret.w()) })))
        }
        SYM_ITE => {
            let c = extract(arg_e(&a[0]), 0, 1);
            Ok(Some(mkv(ite(c, arg_e(&a[1]), arg_e(&a[2])))))
        }
        SYM_UF => {
            // sym_uf(tag, flags, in, inlen, out, outlen): flags bit 0 = injective
            let tag = x.conc(st, &a[0].0)? as u32;
            let flags = x.conc(st, &a[1].0)?;
            let (p, n) = (x.conc(st, &a[2].0)?, x.conc(st, &a[3].0)?);
            let (q, k) = (x.conc(st, &a[4].0)?, x.conc(st, &a[5].0)?);
            let pre = x.read_byte_exprs(st, p, n)?;
            let out = apply_uf(x, st, 1000 + tag, pre, k as usize, flags & 1 == 1)?;
            x.write_byte_exprs(st, q, &out)?;
            zero
        }
        COMPRESS => {
            let (sp, bp, n) = (x.conc(st, &a[0].0)?, x.conc(st, &a[1].0)?, x.conc(st, &a[2].0)?);
            for i in 0..n {
                let mut pre = x.read_byte_exprs(st, sp, 32)?;
                pre.extend(x.read_byte_exprs(st, bp + 64 * i, 64)?);
                let out = apply_uf(x, st, 1, pre, 32, true)?;
                x.write_byte_exprs(st, sp, &out)?;
            }
            zero
        }
        ALIAS => {
            // C function modelled by a harness function: model_<name without the versioned prefix>
            let name = x.p.m.funcs[fi as usize].name.clone();
            let short = name.splitn(6, '_').nth(4).map(|s| s.to_string()).unwrap_or_default();
            let rest = &name["rustsecp256k1_".len()..];
            let rest = rest.trim_start_matches(|c: char| c == 'v' || c.is_ascii_digit() || c == '_');
            let _ = short;
            let m = format!("model_{}", rest);
            let idx = match x.p.fn_idx.get(&m) {
                Some(i) => *i,
                None => return Err(Stop::Err(format!("no model for {}", name))),
            };
            let cf = x.p.func(idx).expect("model body");
            let mut regs = vec![V::C(0); cf.nregs as usize];
            for (i, p) in cf.params.iter().enumerate() {
                regs[*p as usize] = a[i].0.clone();
            }
            // push a frame whose return resumes after the current call
            let t = st.frames.len() - 1;
            let fr = st.frames[t].clone();
            let ins = &fr.f.blocks[fr.bb as usize].ins[fr.ip as usize];
            let normal = match &ins.i {
                I::Call { normal, .. } => *normal,
                _ => None,
            };
            st.frames.push(Rc::new(Frame { f: cf, bb: 0, ip: 0, regs, allocas: vec![], dst: ins.dst, normal }));
            Err(Stop::Err("@resume".into()))
        }
        _ => Ok(None),
    }
}

fn alloc_size(x: &mut Exec, st: &mut State, v: &V) -> R<u64> {
    if let V::S(e) = v {
        let big = ult(konst(st.alloc_limit as u128, 64), *e);
        if x.branch(st, big)? {
            return Err(Stop::Viol("alloc".into(), format!("allocation beyond the limit of {} bytes", st.alloc_limit)));
        }
    }
    x.conc(st, v)
}

fn lift2(a: &V, b: &V, f: &dyn Fn(&V, &V) -> V) -> V {
    match (a, b) {
        (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(p, q)).collect())),
        _ => f(a, b),
    }
}

fn bytes_eq(a: &[E], b: &[E]) -> E {
    let mut r = tru();
    let mut i = 0;
    while i < a.len() {
        let k = (a.len() - i).min(8);
        let (mut p, mut q) = (a[i], b[i]);
        for j in 1..k {
            p = concat(p, a[i + j]);
            q = concat(q, b[i + j]);
        }
        let e = eq(p, q);
        if as_const(e) == Some(0) {
            return e;
        }
        r = and(r, e);
        i += k;
    }
    r
}

/// uninterpreted functions whose real values can be computed
fn has_real(tag: u32) -> bool {
    tag == 1 || (1001..=1003).contains(&tag)
}
fn real(tag: u32, pre: &[u8], n: usize) -> Vec<u8> {
    if tag == 1 {
        return crate::sha::compress_bytes(pre);
    }
    if has_real(tag) {
        return crate::curve::real(tag, pre);
    }
    // other uninterpreted functions: any value will do; derive a spread-out one
    let mut o = vec![];
    let mut h: u64 = 0xcbf29ce484222325 ^ tag as u64;
    for b in pre {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    for _ in 0..n {
        h ^= h << 13;
        h ^= h >> 7;
        h ^= h << 17;
        o.push(h as u8);
    }
    o
}

/// Apply an uninterpreted function to bytes, keeping functional consistency (and injectivity, for
/// the idealised hash) against every earlier application on this path.
pub fn apply_uf(x: &mut Exec, st: &mut State, tag: u32, pre: Vec<E>, outlen: usize, inj: bool) -> R<Vec<E>> {
    x.rep.hash_apps += 1;
    let pre: Vec<E> = pre.into_iter().map(|e| simp(e, &st.known, 5)).collect();
    let mut depth = None;
    if tag == 1 {
        if let Some(i) = st.uf.iter().rposition(|q| q.tag == 1 && q.out[..] == pre[..32]) {
            depth = st.uf[i].depth.map(|d| d + 1);
            if !st.uf[i].inner {
                Rc::make_mut(&mut st.uf)[i].inner = true;
            }
        } else if pre[..32].iter().all(|e| as_const(*e).is_some()) {
            depth = Some(0);
        }
    }
    for ap in st.uf.iter() {
        if ap.tag == tag && ap.pre.len() == pre.len() && !apart(ap.depth, depth) && ap.pre.iter().zip(&pre).all(|(x, y)| x == y || simp(*x, &st.known, 5) == *y) {
            return Ok((*ap.out).clone());
        }
    }
    if std::env::var("SYMEX_UF").is_ok() {
        let best = st.uf.iter().enumerate().filter(|(_, a)| a.tag == tag && a.pre.len() == pre.len()).map(|(i, a)| (a.pre.iter().zip(&pre).filter(|(x, y)| x == y).count(), i)).max();
        if let Some((n, i)) = best {
            let j = (0..pre.len()).find(|j| st.uf[i].pre[*j] != pre[*j]);
            if let Some(j) = j {
                eprintln!("uf app {}: {} of {} bytes as in app {}; byte {}: {} / {}", st.uf.len(), n, pre.len(), i, j, show(st.uf[i].pre[j], 6), show(pre[j], 6));
            }
        }
    }
    let conc = pre.iter().all(|e| as_const(*e).is_some());
    let md = st.model.clone();
    if conc && has_real(tag) {
        let pb: Vec<u8> = pre.iter().map(|e| as_const(*e).unwrap() as u8).collect();
        let out: Vec<E> = real(tag, &pb, outlen).iter().map(|b| konst(*b as u128, 8)).collect();
        let cons = relations(st, tag, &pre, &out, inj, depth);
        push_all(x, st, cons)?;
        Rc::make_mut(&mut st.uf).push(App { tag, pre: Rc::new(pre), out: Rc::new(out.clone()), conc: true, depth, inner: false });
        return Ok(out);
    }
    let nth = st.uf.len() as u32;
    let mut out = vec![];
    let mut vars = vec![];
    let mut i = 0;
    while i < outlen {
        let k = (outlen - i).min(8) as u32;
        let e = x.input_var(nth * 16 + (i / 8) as u32, 2 + tag * 4, k * 8);
        vars.push((node(e).a, k));
        for j in (0..k).rev() {
            out.push(extract(e, j * 8, 8));
        }
        i += k as usize;
    }
    // a model value: that of an equal earlier application, else the real function / a pseudo-random value
    let pv: Vec<u8> = pre.iter().map(|e| md.eval(*e) as u8).collect();
    let mut val = None;
    for ap in st.uf.iter() {
        if ap.tag == tag && ap.pre.len() == pre.len() && !apart(ap.depth, depth) && ap.pre.iter().zip(&pv).all(|(e, v)| md.eval(*e) as u8 == *v) {
            val = Some(ap.out.iter().map(|e| md.eval(*e) as u8).collect::<Vec<u8>>());
            break;
        }
    }
    let val = val.unwrap_or_else(|| real(tag, &pv, outlen));
    let mut vals = md.clone_vals();
    let mut o = 0;
    for (v, k) in vars {
        let mut z = 0u128;
        for _ in 0..k {
            z = (z << 8) | val[o] as u128;
            o += 1;
        }
        vals.insert(v, z);
    }
    st.model = Rc::new(Model::new(vals));
    let cons = relations(st, tag, &pre, &out, inj, depth);
    Rc::make_mut(&mut st.uf).push(App { tag, pre: Rc::new(pre), out: Rc::new(out.clone()), conc: false, depth, inner: false });
    push_all(x, st, cons)?;
    Ok(out)
}

/// Equality of the inputs of two compressions as equality of what was hashed before and now: the
/// hash is injective, and no digest is the initial value.
fn block_eq(st: &State, a: &[E], b: &[E]) -> E {
    let (sa, sb) = (&a[..32], &b[..32]);
    let rest = bytes_eq(&a[32..], &b[32..]);
    if as_const(rest) == Some(0) {
        return rest;
    }
    let e = if sa == sb {
        rest
    } else {
        let con = |s: &[E]| s.iter().all(|e| as_const(*e).is_some());
        let of = |s: &[E]| st.uf.iter().find(|q| q.tag == 1 && q.out[..] == *s);
        if con(sa) && con(sb) {
            return fls();
        }
        match (of(sa), of(sb)) {
            (Some(p), Some(q)) => and(block_eq(st, &p.pre, &q.pre), rest),
            (Some(p), None) if con(sb) && !p.conc => return fls(),
            (None, Some(q)) if con(sa) && !q.conc => return fls(),
            _ => and(bytes_eq(sa, sb), rest),
        }
    };
    let e = simp(e, &st.known, 3);
    if as_const(e).is_some() {
        return e;
    }
    // digests known to differ
    let mut cs = vec![];
    conjuncts(e, &mut cs);
    let set: std::collections::HashSet<E> = cs.iter().copied().collect();
    for c in &cs {
        let n = node(*c);
        if n.op != Op::Eq || node(n.a).op != Op::Var || node(n.b).op != Op::Var {
            continue;
        }
        let app = |w: E| st.uf.iter().find(|q| q.tag == 1 && !q.conc && node(q.out[0]).op == Op::Extract && node(q.out[0]).a == w);
        if let (Some(p), Some(q)) = (app(n.a), app(n.b)) {
            let eo = bytes_eq(&p.out, &q.out);
            if st.known.get(&eo) == Some(&0) {
                let mut v = vec![];
                conjuncts(eo, &mut v);
                if v.iter().all(|x| set.contains(x)) {
                    return fls();
                }
            }
        }
    }
    e
}

/// Compressions at different places of their messages have different inputs: no digest is the initial
/// value, and the hash is injective. That their outputs differ as well matters to whole digests only.
fn apart(a: Option<u32>, b: Option<u32>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => x != y,
        _ => false,
    }
}

fn relations(st: &State, tag: u32, pre: &[E], out: &[E], inj: bool, depth: Option<u32>) -> Vec<E> {
    let mut cons = vec![];
    for ap in st.uf.iter() {
        if ap.tag != tag || (ap.inner && apart(ap.depth, depth)) {
            continue;
        }
        let ep = if apart(ap.depth, depth) { fls() } else if tag == 1 { block_eq(st, &ap.pre, pre) } else if ap.pre.len() == pre.len() { bytes_eq(&ap.pre, pre) } else { fls() };
        let eo = bytes_eq(&ap.out, out);
        if std::env::var("SYMEX_REL").is_ok() && as_const(ep).is_none() { eprintln!("REL {} <=> {}", show(ep, 7), show(eo, 5)); }
        if inj {
            cons.push(eq(ep, eo));
        } else {
            cons.push(or(not(ep), eo));
        }
    }
    cons
}

fn push_all(x: &mut Exec, st: &mut State, cons: Vec<E>) -> R<()> {
    for c in cons {
        if as_const(c) == Some(1) {
            continue;
        }
        x.assume(st, c)?;
    }
    Ok(())
}

/// Look for a model of the path (plus `extra`) in which every hash output is the real digest.
pub fn realise(x: &mut Exec, st: &State, md: &Rc<Model>, extra: &[E]) -> Option<Rc<Model>> {
    let mut pc = st.pc.clone();
    pc.extend_from_slice(extra);
    let mut cur = md.clone();
    // fast attempt: recompute outputs, keep inputs
    for round in 0..2 {
        let mut ok = true;
        for ap in st.uf.iter().filter(|a| has_real(a.tag)) {
            let pv: Vec<u8> = ap.pre.iter().map(|e| cur.eval(*e) as u8).collect();
            let n = ap.out.len();
            let rv = real(ap.tag, &pv, n);
            let ov: Vec<u8> = ap.out.iter().map(|e| cur.eval(*e) as u8).collect();
            if rv == ov && round == 0 {
                continue;
            }
            if round == 0 {
                let mut vals = cur.clone_vals();
                let mut i = 0;
                while i < n {
                    let mut z = 0u128;
                    for j in 0..8 {
                        z = (z << 8) | rv[i + j] as u128;
                    }
                    let e = node(ap.out[i]);
                    if e.op == Op::Extract {
                        vals.insert(node(e.a).a, z);
                    }
                    i += 8;
                }
                cur = Rc::new(Model::new(vals));
            } else {
                let mut c = vec![];
                for (e, v) in ap.pre.iter().zip(&pv) {
                    c.push(eq(*e, konst(*v as u128, 8)));
                }
                for (e, v) in ap.out.iter().zip(&rv) {
                    c.push(eq(*e, konst(*v as u128, 8)));
                }
                // keep what is already real: a later step must not disturb it
                let c: Vec<E> = c.into_iter().filter(|e| as_const(*e) != Some(1)).collect();
                if rv == ov {
                    pc.extend(c);
                    continue;
                }
                match x.sol.check(&pc, &c, &cur) {
                    Res::Sat(m2) => {
                        pc.extend(c);
                        cur = m2;
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
        }
        if std::env::var("SYMEX_REAL").is_ok() {
            eprintln!("realise round {} ok {} failing {:?}", round, ok, pc.iter().filter(|c| !cur.holds(**c)).take(3).map(|c| show(*c, 6)).collect::<Vec<_>>());
        }
        if ok && pc.iter().all(|c| cur.holds(*c)) {
            return Some(cur);
        }
        cur = md.clone();
    }
    None
}
