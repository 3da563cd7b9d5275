mod exec;
mod expr;
mod ir;
mod solver;

use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn prctl(op: i32, ...) -> i32;
    fn getpid() -> i32;
}

/// line-oriented report, merged by the driver
pub fn report(x: &exec::Exec) -> String {
    use std::fmt::Write;
    let s = &x.stats;
    let mut o = String::new();
    let mut put = |k: &str, v: u64| {
        writeln!(o, "n {} {}", k, v).unwrap();
    };
    put("paths", s.paths);
    put("killed", s.killed);
    put("steps", s.steps);
    put("branches", s.branches);
    put("forks", s.forks);
    put("asserts", s.asserts);
    put("asserts_proved", s.asserts_proved);
    put("asserts_trivial", s.asserts_trivial);
    put("unexplored", s.unexplored);
    put("violations", s.nviol);
    put("queries", x.s.queries);
    put("patched", s.patched);
    put("sat", x.s.sat);
    put("unsat", x.s.unsat);
    put("cached", x.s.cached);
    put("slow", x.s.slow);
    put("unknown", x.s.unknown);
    put("solver_us", x.s.time_ns / 1000);
    put("exprs", expr::cx().nodes.len() as u64);
    writeln!(o, "max max_query_us {}", x.s.max_ns / 1000).unwrap();
    writeln!(o, "max max_depth {}", s.max_depth).unwrap();
    writeln!(o, "max max_path_steps {}", s.max_steps).unwrap();
    for (k, v) in &s.unsupported {
        writeln!(o, "unsup {} {}", v, k.replace('\n', " ")).unwrap();
    }
    for (k, v) in &s.fork_sites {
        writeln!(o, "site {} {}", v, k).unwrap();
    }
    for f in &s.funcs {
        writeln!(o, "func {}", x.m.funcs[*f].name).unwrap();
    }
    for c in &s.covers {
        writeln!(o, "cover {}", c).unwrap();
    }
    let join = |v: &Vec<u64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    for v in &s.viols {
        writeln!(
            o,
            "viol {} {} {} [{}] {}",
            v.label,
            v.code,
            v.kind,
            join(&v.inputs),
            v.site.replace('\n', " ")
        )
        .unwrap();
    }
    for (i, b) in &s.samples {
        writeln!(o, "sample [{}] [{}]", join(i), join(b)).unwrap();
    }
    o
}

fn main() {
    let mut args = std::env::args().skip(1);
    let ll = args.next().expect("usage: symex file.ll entry [options]");
    let entry = args.next().expect("entry");
    let mut cfg = exec::Cfg {
        label: 0,
        params: vec![],
        workers: 8,
        deadline: exec::deadline(600.0),
        max_steps: 20_000_000,
        max_depth: 1500,
        max_viols: 6,
        nsamples: 40,
        out: "/tmp".into(),
        seed: 1,
        rlimit: 400_000_000,
        trace: false,
        profile: false,
        hash: (0, 0),
    };
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--label" => cfg.label = v().parse().unwrap(),
            "--params" => {
                cfg.params = v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()
            }
            "--workers" => cfg.workers = v().parse().unwrap(),
            "--time" => cfg.deadline = exec::deadline(v().parse().unwrap()),
            "--steps" => cfg.max_steps = v().parse().unwrap(),
            "--depth" => cfg.max_depth = v().parse().unwrap(),
            "--viols" => cfg.max_viols = v().parse().unwrap(),
            "--samples" => cfg.nsamples = v().parse().unwrap(),
            "--hash" => {
                let x = v();
                let (a, b) = x.split_once(',').unwrap();
                cfg.hash = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--rlimit" => cfg.rlimit = v().parse().unwrap(),
            "--out" => cfg.out = v(),
            "--seed" => cfg.seed = v().parse().unwrap(),
            "--trace" => cfg.trace = true,
            "--profile" => cfg.profile = true,
            _ => panic!("option {}", a),
        }
    }
    // deep expression recursion: run on a big stack
    let src: &'static str = Box::leak(std::fs::read_to_string(&ll).expect("read .ll").into_boxed_str());
    let _ = std::fs::create_dir_all(&cfg.out);
    unsafe {
        prctl(36, 1u64, 0u64, 0u64, 0u64); // child subreaper
    }
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || run(src, entry, cfg)).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn run(src: &'static str, entry: String, cfg: exec::Cfg) -> i32 {
    expr::init();
    let t0 = std::time::Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::parse_module(src)));
    let t1 = t0.elapsed();
    let sh: &'static exec::Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut exec::Shared;
        std::ptr::write(
            p,
            exec::Shared {
                active: AtomicU32::new(1),
                viols: AtomicU32::new(0),
                stop: AtomicU32::new(0),
            },
        );
        &*p
    };
    let f = match m.fidx.get(&entry) {
        Some(f) => *f,
        None => {
            eprintln!("no entry {}", entry);
            return 3;
        }
    };
    let mut x = exec::Exec::new(m, cfg, sh);
    x.start(f);
    x.finish();
    sh.active.fetch_sub(1, SeqCst);
    // collect the workers
    let mut bad = 0;
    loop {
        let mut st = 0i32;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p < 0 {
            break;
        }
        if st != 0 {
            bad += 1;
            eprintln!("worker {} ended with status {:#x}", p, st);
        }
    }
    let pid = unsafe { getpid() };
    std::fs::write(
        format!("{}/meta.txt", x.cfg.out),
        format!(
            "root {}\nbad {}\nparse_ms {}\nwall_ms {}\nz3 {}\n",
            pid,
            bad,
            t1.as_millis(),
            t0.elapsed().as_millis(),
            solver::version()
        ),
    )
    .unwrap();
    if bad > 0 {
        2
    } else {
        0
    }
}
