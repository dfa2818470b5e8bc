//! irsym: symbolic execution of LLVM IR with Z3. See ../DESIGN.md.
mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn nums(v: &[u64]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

/// one JSON object describing what this process explored
fn report(x: &Exec, wall: f64) -> String {
    let s = &x.stats;
    let mut o = String::from("{");
    for (k, v) in [
        ("paths", s.paths as u128),
        ("killed", s.killed as u128),
        ("forks", s.forks as u128),
        ("instrs", s.instrs as u128),
        ("queries", s.queries as u128),
        ("sat", s.sat as u128),
        ("unsat", s.unsat as u128),
        ("cached", s.cached as u128),
        ("solver_us", s.solver_ns / 1000),
        ("max_query_us", s.max_query_ns / 1000),
        ("max_tape", s.max_tape as u128),
        ("max_steps", s.max_steps as u128),
        ("nodes", x.cx.nodes.len() as u128),
    ] {
        o.push_str(&format!("\"{}\":{},", k, v));
    }
    o.push_str(&format!("\"wall\":{:.3},", wall));
    o.push_str(&format!("\"error\":{},", x.error.as_ref().map(|e| esc(e)).unwrap_or("null".into())));
    let v: Vec<String> = x
        .viols
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|s| esc(&short(s))).collect();
            format!("{{\"kind\":{},\"label\":{},\"tape\":{},\"stack\":[{}]}}", esc(&v.kind), esc(&v.label), nums(&v.tape), st.join(","))
        })
        .collect();
    o.push_str(&format!("\"violations\":[{}],", v.join(",")));
    let v: Vec<String> = x.viol_counts.iter().map(|((k, l), n)| format!("[{},{},{}]", esc(k), esc(l), n)).collect();
    o.push_str(&format!("\"violation_counts\":[{}],", v.join(",")));
    let v: Vec<String> = x.samples.iter().map(|v| format!("{{\"tape\":{},\"obs\":{}}}", nums(&v.tape), nums(&v.obs))).collect();
    o.push_str(&format!("\"samples\":[{}],", v.join(",")));
    let v: Vec<String> = x.reach.iter().map(|(k, n)| format!("[{},{}]", k, n)).collect();
    o.push_str(&format!("\"reach\":[{}],", v.join(",")));
    let v: Vec<String> = x.funcs.iter().map(|f| esc(f)).collect();
    o.push_str(&format!("\"functions\":[{}]", v.join(",")));
    o.push('}');
    o
}

fn explore(x: &mut Exec) {
    let mut n = 0u64;
    while let Some(st) = x.work.pop_back() {
        x.run(st);
        if x.error.is_some() {
            return;
        }
        n += 1;
        if n % 16 == 0 && x.out_of_time() {
            x.error = Some(format!("time budget exhausted or stopped; {} states pending", x.work.len()));
            return;
        }
    }
}

fn real_main() -> i32 {
    let mut args = std::env::args().skip(1);
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    while let Some(a) = args.next() {
        let v = args.next().unwrap_or_default();
        opt.insert(a.trim_start_matches("--").to_string(), v);
    }
    if opt.contains_key("selftest") {
        return expr::selftest(opt["selftest"].parse().unwrap_or(200000));
    }
    if opt.contains_key("version") {
        println!("{}", z3::Z3::version());
        return 0;
    }
    let start = Instant::now();
    let timeout: f64 = opt.get("timeout").and_then(|s| s.parse().ok()).unwrap_or(600.0);
    let jobs: usize = opt.get("jobs").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = opt.get("out").cloned().unwrap_or("/dev/stdout".into());
    let m = match ir::Module::load(&opt["ll"]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("irsym: {}", e);
            return 3;
        }
    };
    let mut x = Exec::new(&m);
    x.seed = opt.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    x.begun = start;
    x.entry = opt["entry"].clone();
    x.timeout = timeout;
    x.stop_file = opt.get("stop").cloned();
    x.dump_dir = opt.get("dump").cloned();
    x.dump_left = if x.dump_dir.is_some() { 40 } else { 0 };
    if let Some(s) = opt.get("max-steps") {
        x.max_steps = s.parse().unwrap_or(x.max_steps);
    }
    if let Err(e) = x.start(&opt["entry"]) {
        eprintln!("irsym: {}", e);
        return 3;
    }
    let mut reports: Vec<String> = vec![];
    // breadth first until there is enough to share out
    let want = if jobs > 1 { 24 * jobs } else { usize::MAX };
    if jobs > 1 {
        let t = Instant::now();
        let mut n = 0;
        while x.work.len() < want {
            let st = match x.work.pop_front() {
                Some(s) => s,
                None => break,
            };
            x.run(st);
            n += 1;
            if x.error.is_some() || (n > 64 && t.elapsed() > Duration::from_secs(20)) {
                break;
            }
        }
    }
    if jobs > 1 && !x.work.is_empty() && x.error.is_none() {
        let pending: Vec<_> = x.work.drain(..).collect();
        let shm = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const AtomicU64;
        if shm as isize == -1 {
            eprintln!("irsym: mmap");
            return 3;
        }
        let ctr = unsafe { &*shm };
        let mut pids = vec![];
        let base = format!("{}.{}", if out == "/dev/stdout" { "/tmp/irsym" } else { &out }, std::process::id());
        std::io::stdout().flush().ok();
        for j in 0..jobs {
            let p = unsafe { fork() };
            if p < 0 {
                eprintln!("irsym: fork");
                return 3;
            }
            if p == 0 {
                x.stats = Stats::default();
                x.viols.clear();
                x.viol_counts.clear();
                x.samples.clear();
                x.reach.clear();
                let mut pend: Vec<Option<Box<State>>> = pending.into_iter().map(Some).collect();
                loop {
                    let k = ctr.fetch_add(1, Ordering::SeqCst) as usize;
                    if k >= pend.len() {
                        break;
                    }
                    if x.out_of_time() {
                        x.error = Some(format!("time budget exhausted or stopped; {} shared states pending", pend.len() - k));
                        break;
                    }
                    x.work.push_back(pend[k].take().unwrap());
                    explore(&mut x);
                    if x.error.is_some() {
                        // tell the others
                        ctr.store(1 << 40, Ordering::SeqCst);
                        break;
                    }
                }
                let r = report(&x, start.elapsed().as_secs_f64());
                let ok = std::fs::write(format!("{}.{}", base, j), r).is_ok();
                unsafe { _exit(if ok { 0 } else { 3 }) }
            }
            pids.push(p);
        }
        let mut bad = false;
        for (j, p) in pids.iter().enumerate() {
            let mut s = 0;
            unsafe { waitpid(*p, &mut s, 0) };
            let f = format!("{}.{}", base, j);
            match std::fs::read_to_string(&f) {
                Ok(r) if s == 0 => reports.push(r),
                _ => bad = true,
            }
            let _ = std::fs::remove_file(&f);
        }
        if bad {
            x.error = Some("a worker process ended abnormally".into());
        }
    } else {
        explore(&mut x);
    }
    reports.push(report(&x, start.elapsed().as_secs_f64()));
    let body = format!("[{}]\n", reports.join(",\n"));
    if std::fs::write(&out, body).is_err() {
        return 3;
    }
    0
}

fn main() {
    // expression recursion can be deep
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}
