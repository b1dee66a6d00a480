mod code;
mod curve;
mod exec;
mod expr;
mod hooks;
mod ir;
mod sha;
mod solver;
use std::rc::Rc;

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap());
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("prep") => prep(&a[2], &a[3]),
        Some("run") => run(&a[2], &a[3]),
        _ => {
            eprintln!("usage: symex prep in.ll out.ll | run file.ll entry");
            2
        }
    }
}

/// Drop the bodies of diverging functions and of functions replaced by models; keep the identity of
/// functions of the crates under study (no inlining).
fn prep(inp: &str, out: &str) -> i32 {
    let src = std::fs::read_to_string(inp).unwrap();
    let mut always = std::collections::HashSet::new();
    let mut noret = std::collections::HashSet::new();
    for l in src.lines() {
        if let Some(r) = l.strip_prefix("attributes #") {
            if l.contains(" alwaysinline") || l.contains(" optnone") {
                always.insert(r.split(' ').next().unwrap().to_string());
            }
            if l.contains(" noreturn") {
                noret.insert(r.split(' ').next().unwrap().to_string());
            }
        }
    }
    let grp_of = |l: &str| l.rsplit(' ').find(|t| t.starts_with('#')).map(|t| t[1..].to_string());
    let mut o = String::with_capacity(src.len());
    let mut skip = false;
    for l in src.lines() {
        if skip {
            if l == "}" {
                skip = false;
            }
            continue;
        }
        if l.starts_with("define ") {
            let at = l.find('@').unwrap();
            let rest = &l[at + 1..];
            let name = if rest.starts_with('"') { rest[1..].split('"').next().unwrap() } else { rest.split('(').next().unwrap() };
            let tail = &l[l.rfind(')').unwrap()..];
            let grp = l.rsplit(' ').find(|t| t.starts_with('#')).map(|t| t[1..].to_string());
            let div = grp.map(|g| noret.contains(&g)).unwrap_or(false);
            let _ = tail;
            if (div && name.starts_with('_')) || hooks::is_stubbed(name) {
                // definition -> declaration
                let mut d = l.replacen("define ", "declare ", 1);
                for w in ["internal ", "private ", "hidden ", "dso_local ", "linkonce_odr ", "weak_odr ", "protected ", "available_externally "] {
                    d = d.replace(w, "");
                }
                let k = d.rfind('{').unwrap();
                d.truncate(k);
                if let Some(k) = d.find(" !") {
                    d.truncate(k);
                }
                for w in [" comdat", " personality"] {
                    if let Some(k) = d.find(w) {
                        d.truncate(k);
                    }
                }
                o.push_str(&d);
                o.push('\n');
                skip = true;
                continue;
            }
            let keep = name.contains("7fuel_tx") || name.contains("10fuel_types") || name.contains("11fuel_crypto") || name.contains("11fuel_merkle") || hooks::keep_out_of_line(name);
            if keep && !grp_of(l).map(|g| always.contains(&g)).unwrap_or(true) {
                let g = l.rsplit(' ').find(|t| t.starts_with('#')).map(|t| t.to_string());
                if let Some(g) = g {
                    let k = l.rfind(&format!(" {} ", g)).unwrap();
                    o.push_str(&l[..k]);
                    o.push_str(" noinline");
                    o.push_str(&l[k..]);
                    o.push('\n');
                    continue;
                }
            }
        }
        o.push_str(l);
        o.push('\n');
    }
    std::fs::write(out, o).unwrap();
    0
}


extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn jmap<'a>(v: impl Iterator<Item = (&'a String, &'a u64)>) -> String {
    format!("{{{}}}", v.map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","))
}

fn report(x: &exec::Exec, path: &str, wall: f64) {
    let r = &x.rep;
    let s = &x.sol.st;
    let viol = r.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"site\":{},\"input\":\"{}\"}}", js(&v.kind), js(&v.msg), js(&v.site), hex(&v.input))).collect();
    let samples = r
        .samples
        .iter()
        .map(|(i, o, l)| {
            format!(
                "{{\"input\":\"{}\",\"obs\":{},\"reach\":{}}}",
                hex(i),
                jarr(o.iter().map(|(k, b)| format!("[{},\"{}\"]", js(k), hex(b))).collect()),
                jarr(l.iter().map(|k| js(k)).collect())
            )
        })
        .collect();
    let funcs = r.funcs.iter().map(|i| x.p.m.funcs[*i as usize].name.clone()).filter(|n| n.contains("7fuel_tx") || n.contains("10fuel_types") || n.contains("11fuel_crypto") || n.contains("11fuel_merkle")).map(|n| js(&hooks::demangle(&n))).collect();
    let t = format!(
        "{{\"paths\":{},\"killed\":{},\"forks\":{},\"instrs\":{},\"asserts\":{},\"assert_queries\":{},\"hash_apps\":{},\"max_pc\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"solver_us\":{},\"max_us\":{},\"wall\":{:.3},\"errors\":{},\"reached\":{},\"violations\":{},\"samples\":{},\"funcs\":{}}}\n",
        r.paths, r.killed, r.forks, r.instrs, r.asserts, r.assert_queries, r.hash_apps, r.max_pc, s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.model_hits, s.time_us, s.max_us, wall, jmap(r.errors.iter()), jmap(r.reached.iter()), jarr(viol), jarr(samples), jarr(funcs)
    );
    std::fs::write(path, t).unwrap();
}

fn run(file: &str, entry: &str) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: u64| -> u64 { args.iter().position(|a| a == k).map(|i| args[i + 1].parse().unwrap()).unwrap_or(d) };
    let out = args.iter().position(|a| a == "--out").map(|i| args[i + 1].clone());
    let (deadline, jobs, split) = (opt("--deadline", 600), opt("--jobs", 1), opt("--split", 2));
    let t0 = std::time::Instant::now();
    let src = std::fs::read_to_string(file).unwrap();
    let m = ir::parse(&src);
    drop(src);
    let p = Rc::new(code::Prog::new(m));
    let mut x = exec::Exec::new(p, opt("--rlimit", 400_000_000) as u32);
    x.max_samples = opt("--samples", 8) as usize;
    x.sample_every = opt("--every", 7);
    x.max_instr = opt("--max-instr", 50_000_000);
    x.param = opt("--param", 0);
    x.deadline = Some(t0 + std::time::Duration::from_secs(deadline));
    let st = x.initial(entry);
    x.work.push(st);
    let mut parts = 1;
    if jobs <= 1 {
        x.run(None, false, usize::MAX);
    } else if !x.run(Some(t0 + std::time::Duration::from_millis(split * 1000)), false, usize::MAX) {
        let n = jobs as usize * 16;
        if !x.run(Some(t0 + std::time::Duration::from_millis(split * 1000 + 4000)), true, n) {
            parts = jobs as usize + 1;
            let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut std::sync::atomic::AtomicUsize;
            unsafe { (*shared).store((*x.found).load(std::sync::atomic::Ordering::SeqCst), std::sync::atomic::Ordering::SeqCst) };
            x.found = shared;
            let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut std::sync::atomic::AtomicUsize;
            let mut all = std::mem::take(&mut x.work);
            all.sort_by_key(|s| s.forks);
            let mut kids = vec![];
            for j in 0..jobs as usize {
                let pid = unsafe { fork() };
                if pid == 0 {
                    x.rep = Default::default();
                    x.sol.st = Default::default();
                    loop {
                        let i = unsafe { (*ctr).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
                        if i >= all.len() {
                            break;
                        }
                        x.work.push(all[i].clone());
                        x.run(None, false, usize::MAX);
                    }
                    if let Some(o) = &out {
                        report(&x, &format!("{}.{}", o, j + 1), t0.elapsed().as_secs_f64());
                    } else {
                        summary(&x, t0);
                    }
                    unsafe { _exit(0) }
                }
                kids.push(pid);
            }
            for k in kids {
                let mut st = 0;
                unsafe { waitpid(k, &mut st, 0) };
                if st != 0 {
                    *x.rep.errors.entry(format!("worker ended abnormally ({:#x})", st)).or_default() += 1;
                }
            }
        }
    }
    match &out {
        Some(o) => {
            report(&x, &format!("{}.0", o), t0.elapsed().as_secs_f64());
            std::fs::write(o, format!("{}\n", parts)).unwrap();
        }
        None => summary(&x, t0),
    }
    0
}

fn summary(x: &exec::Exec, t0: std::time::Instant) {
    let r = &x.rep;
    eprintln!("paths {} killed {} forks {} instrs {} asserts {} (queried {}) hash {} max_pc {}", r.paths, r.killed, r.forks, r.instrs, r.asserts, r.assert_queries, r.hash_apps, r.max_pc);
    eprintln!("solver {:?}", x.sol.st);
    eprintln!("errors {:?}", r.errors);
    eprintln!("reached {:?}", r.reached);
    for v in &r.violations {
        eprintln!("VIOLATION {} {} [{}] {}", v.kind, v.msg, v.site, hex(&v.input));
    }
    eprintln!("total {:?}", t0.elapsed());
}
