mod exec;
mod expr;
mod ir;
mod solver;
mod selftest;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn pipe(fd: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn fcntl(fd: i32, c: i32, a: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn getpid() -> i32;
    fn setpgid(a: i32, b: i32) -> i32;
}

fn esc(s: &str) -> String { s.chars().map(|c| match c { '"' | '\\' => format!("\\{}", c), '\n' => "\\n".into(), c if (c as u32) < 32 => " ".into(), c => c.to_string() }).collect() }

/// results of one worker process, one record per line
fn dump(x: &exec::Exec, f: &str) {
    let o = &x.out;
    let s = &x.s.st;
    let mut t = String::new();
    t += &format!("N\tpaths\t{}\nN\taborted\t{}\nN\tpruned\t{}\nN\tsteps\t{}\nN\tprops_checked\t{}\nN\tprops_trivial\t{}\nN\tbranches\t{}\n", o.paths, o.aborted, o.pruned, o.steps, o.props_checked, o.props_trivial, o.branches);
    t += &format!("N\tqueries\t{}\nN\tsat\t{}\nN\tunsat\t{}\nN\tunknown\t{}\nN\tcache_hits\t{}\nN\tmodel_hits\t{}\nN\tfallback\t{}\nN\tcrosschecked\t{}\nN\tlia\t{}\nN\tlia_hits\t{}\nN\trace\t{}\nN\tsolver_us\t{}\nM\tmax_query_us\t{}\nM\tterms\t{}\n", s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.model_hits, s.fallback, s.crosschecked, s.lia, s.lia_hits, s.race, (s.time * 1e6) as u64, (s.max_time * 1e6) as u64, x.p.nodes.len());
    for (k, v) in &o.panics { t += &format!("P\t{}\t{}\n", k, v); }
    for (k, v) in &o.props { t += &format!("A\t{}\t{}\n", k, v); }
    for (k, v) in &o.witnesses { t += &format!("W\t{}\t{}\n", k, *v as u8); }
    for (i, v) in x.entered.iter().enumerate() { if *v { t += &format!("F\t{}\t1\n", exec::demangle(&x.m.fns[i].1)); } }
    for e in &o.errors { t += &format!("E\t{}\t1\n", e.replace('\t', " ")); }
    for (d, ob) in &o.samples { t += &format!("S\t{}\t{}\n", d.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" "), ob); }
    if let Some(v) = &o.violation { t += &format!("V\t{}\t{}\n", v.msg, v.draws.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ")); }
    if x.trace { for (k, v) in &x.fork_loc { t += &format!("L\t{}\t{}\n", k, v); } }
    std::fs::write(f, t).unwrap();
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--selftest") {
        let n = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(2000);
        let s = std::env::args().nth(3).and_then(|x| x.parse().ok()).unwrap_or(1);
        println!("simplifier agrees with the semantics on {} random terms", selftest::run(n, s));
        return;
    }
    let a: Vec<String> = std::env::args().collect();
    // sx BITCODE HARNESS --jobs N --time S --solver S --out FILE [--no-panic] [--crosscheck]
    let arg = |k: &str, d: u64| a.iter().position(|x| x == k).map(|i| a[i + 1].parse().unwrap()).unwrap_or(d);
    let outf = a.iter().position(|x| x == "--out").map(|i| a[i + 1].clone());
    let t0 = Instant::now();
    let m = ir::Module::load(&a[1]);
    let mut x = exec::Exec::new(&m);
    x.deadline = t0 + Duration::from_secs(arg("--time", 600));
    x.s.full_s = arg("--solver", 120);
    x.s.quick_ms = arg("--quick-ms", 4000) as u32;
    x.s.crosscheck = a.iter().any(|x| x == "--crosscheck");
    x.default_no_panic = a.iter().any(|x| x == "--no-panic");
    let jobs = arg("--jobs", 1);
    let entry = match m.find(&a[2]) { Some(e) => e, None => { eprintln!("no entry point {}", a[2]); std::process::exit(3) } };
    let load_s = t0.elapsed().as_secs_f64();
    // redirect=PATTERN:TARGET replaces calls of matching functions by a model in the same module
    for r in a.iter().filter(|x| x.starts_with("redirect=")) {
        let (pat, tgt) = r["redirect=".len()..].split_once(':').unwrap();
        let t = m.find(tgt).expect("redirect target");
        for (i, f) in m.fns.iter().enumerate() { if f.1.contains(pat) { x.redirect.insert(i as u32, t); } }
    }
    x.start(entry);
    let dir = std::env::temp_dir().join(format!("sx_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut fd = [0i32; 2];
    let me = unsafe { getpid() };
    unsafe {
        setpgid(0, 0);
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
        pipe(fd.as_mut_ptr());
        fcntl(fd[0], 4, 0x800); // O_NONBLOCK
        for _ in 1..jobs { write(fd[1], b"t".as_ptr(), 1); }
    }
    let mut is_child = false;
    loop {
        if jobs > 1 && x.work.len() >= 2 {
            let mut b = 0u8;
            if unsafe { read(fd[0], &mut b, 1) } == 1 {
                // hand half of the frontier to a new process
                let n = x.work.len();
                let pid = unsafe { fork() };
                if pid == 0 {
                    is_child = true;
                    let mut k = 0;
                    x.work.retain(|_| { k += 1; (k - 1) % 2 == 0 });
                    x.out = exec::Out::default();
                    x.s.st = Default::default();
                } else {
                    if pid < 0 { eprintln!("fork failed"); std::process::exit(3); }
                    let mut k = 0;
                    x.work.retain(|_| { k += 1; (k - 1) % 2 == 1 });
                }
            }
        }
        let st = match x.work.pop() { Some(s) => s, None => break };
        x.run_one(st);
        if x.out.violation.is_some() || !x.out.errors.is_empty() { break; }
    }
    let f = dir.join(format!("r{}", unsafe { getpid() }));
    dump(&x, f.to_str().unwrap());
    if is_child {
        unsafe { write(fd[1], b"t".as_ptr(), 1); }
        std::process::exit(if x.out.violation.is_some() || !x.out.errors.is_empty() { 1 } else { 0 });
    }
    // wait for every descendant; stop early on a violation or an error
    let mut bad = x.out.violation.is_some() || !x.out.errors.is_empty();
    let mut crashed = 0;
    let mut status = String::new();
    let mut killed = false;
    loop {
        let mut st = 0;
        if bad && !killed {
            killed = true;
            for e in std::fs::read_dir("/proc").unwrap().flatten() {
                if let Ok(pid) = e.file_name().to_string_lossy().parse::<i32>() {
                    if pid == me { continue; }
                    if let Ok(s) = std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
                        if let Some(r) = s.rfind(')') { let fs: Vec<&str> = s[r + 2..].split(' ').collect(); if fs.get(2).and_then(|x| x.parse::<i32>().ok()) == Some(me) { unsafe { kill(pid, 9); } } }
                    }
                }
            }
        }
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p < 0 { break; }
        if st & 0x7f != 0 { if !killed { crashed += 1; bad = true; status += &format!(" signal {}", st & 0x7f); } } else if (st >> 8) & 0xff != 0 { bad = true; if (st >> 8) & 0xff > 1 { crashed += 1; status += &format!(" exit {}", (st >> 8) & 0xff); } }
    }
    // merge
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut maps: BTreeMap<char, BTreeMap<String, u64>> = BTreeMap::new();
    let mut viol: Option<(String, String)> = None;
    let mut samples: Vec<(String, String)> = vec![];
    let mut procs = 0;
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        procs += 1;
        for l in std::fs::read_to_string(e.path()).unwrap_or_default().lines() {
            let c: Vec<&str> = l.split('\t').collect();
            if c.len() < 3 { continue; }
            match c[0] {
                "N" => *n.entry(c[1].into()).or_insert(0) += c[2].parse::<u64>().unwrap(),
                "M" => { let v = n.entry(c[1].into()).or_insert(0); *v = (*v).max(c[2].parse().unwrap()); }
                "W" => { let v = maps.entry('W').or_default().entry(c[1].into()).or_insert(0); *v = (*v).max(c[2].parse().unwrap()); }
                "S" => if samples.len() < 12 { samples.push((c[1].into(), c[2].into())) },
                "V" => if viol.is_none() { viol = Some((c[1].into(), c[2].into())) },
                k => *maps.entry(k.chars().next().unwrap()).or_default().entry(c[1].into()).or_insert(0) += c[2].parse::<u64>().unwrap_or(1),
            }
        }
    }
    std::fs::remove_dir_all(&dir).ok();
    if crashed > 0 { maps.entry('E').or_default().insert(format!("{} worker(s) crashed:{}", crashed, status), 1); }
    let empty = BTreeMap::new();
    let errs: BTreeSet<&String> = maps.get(&'E').unwrap_or(&empty).keys().collect();
    let verdict = if viol.is_some() { "VIOLATED" } else if !errs.is_empty() { "ERROR" } else { "HOLDS" };
    let obj = |c: char| -> String { format!("{{{}}}", maps.get(&c).unwrap_or(&empty).iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",")) };
    let mut j = format!("{{\"harness\":\"{}\",\"verdict\":\"{}\",\"wall_s\":{:.3},\"load_s\":{:.3},\"workers\":{},", a[2], verdict, t0.elapsed().as_secs_f64(), load_s, procs);
    for (k, v) in &n { j += &format!("\"{}\":{},", k, v); }
    j += &format!("\"panics\":{},\"properties\":{},\"witnesses\":{},\"functions\":{},\"errors\":{},\"forks\":{},", obj('P'), obj('A'), obj('W'), obj('F'), obj('E'), obj('L'));
    j += &format!("\"samples\":[{}]", samples.iter().map(|s| format!("{{\"draws\":\"{}\",\"observed\":\"{}\"}}", s.0, s.1)).collect::<Vec<_>>().join(","));
    if let Some((m, d)) = &viol { j += &format!(",\"violation\":{{\"msg\":\"{}\",\"draws\":\"{}\"}}", esc(m), d); }
    j += "}";
    match outf { Some(f) => std::fs::write(f, &j).unwrap(), None => println!("{}", j) }
    std::io::stdout().flush().ok();
    std::process::exit(match verdict { "HOLDS" => 0, "VIOLATED" => 1, _ => 2 });
}
