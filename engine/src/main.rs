mod expr;
mod ir;
mod models;
mod vm;
mod z3;
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use vm::*;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn setpgid(a: i32, b: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Map the IR read-only: file pages need no page-table copy when the explorer forks.
fn map_file(p: &str) -> &'static [u8] {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::open(p).expect("open ll");
    let n = f.metadata().expect("stat ll").len() as usize;
    unsafe {
        let a = mmap(std::ptr::null_mut(), n, 1, 2, f.as_raw_fd(), 0);
        assert!(a as isize != -1, "mmap");
        std::slice::from_raw_parts(a, n)
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = t.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    if std::env::args().any(|a| a == "--z3-version") {
        match z3::Z3::new() {
            Ok(z) => println!("{} {}", z.version(), z.path),
            Err(e) => println!("{}", e),
        }
        return 0;
    }
    let ll = arg("--ll").expect("--ll");
    let entries = arg("--entry").expect("--entry");
    let outp = arg("--out").unwrap_or("/dev/stdout".into());
    let jobs: i64 = arg("--jobs").and_then(|x| x.parse().ok()).unwrap_or(8);
    let timeout: u64 = arg("--timeout").and_then(|x| x.parse().ok()).unwrap_or(600);
    let max_insts: u64 = arg("--max-insts").and_then(|x| x.parse().ok()).unwrap_or(2_000_000_000);
    let max_samples: u64 = arg("--samples").and_then(|x| x.parse().ok()).unwrap_or(20);
    let sample_every: u64 = arg("--sample-every").and_then(|x| x.parse().ok()).unwrap_or(1);
    let keep_going = std::env::args().any(|a| a == "--keep-going");
    let trace = std::env::args().any(|a| a == "--trace");
    let no_fd = std::env::args().any(|a| a == "--no-fd");
    let audit: u64 = arg("--audit").and_then(|x| x.parse().ok()).unwrap_or(0);
    let rlimit: u32 = arg("--rlimit").and_then(|x| x.parse().ok()).unwrap_or(200_000_000);

    let src = map_file(&ll);
    let m = match ir::Module::load(src) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("load: {}", e);
            return 3;
        }
    };
    let names: Vec<Vec<u8>> = m.funcs.iter().map(|f| f.name.to_vec()).collect();
    let start = std::time::Instant::now();
    let mut outer = Some(m);
    let list: Vec<String> = entries.split(',').map(|s| s.to_string()).collect();
    let many = list.len() > 1;
    for entry in list {
        let t0 = std::time::Instant::now();
        let sh = Shared::new();
        let op = if many { format!("{}.{}", outp, entry) } else { outp.clone() };
        let _ = std::fs::remove_file(&op);
        let out = std::fs::OpenOptions::new().create(true).append(true).open(&op).expect("out");
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe {
                setpgid(0, 0);
            }
            let m = outer.take().unwrap();
            let cfg = Cfg { jobs, max_insts, rlimit, out, sample_every, max_samples, stop_on_violation: !keep_going, trace, no_fd, audit };
            let f = m.fmap.get(entry.as_bytes()).copied();
            let mut vm = Vm::new(m, cfg, sh);
            sh.active.fetch_add(1, SeqCst);
            let stop = match f {
                None => Stop::Incomplete(format!("no entry {}", entry)),
                Some(f) => match vm.enter(f, vec![], None, None) {
                    Ok(()) => vm.run(),
                    Err(s) => s,
                },
            };
            let n = sh.paths.fetch_add(1, SeqCst);
            match stop {
                Stop::Done => {
                    sh.done.fetch_add(1, SeqCst);
                    if n % sample_every == 0 && sh.samples.fetch_add(1, SeqCst) < max_samples {
                        // concretise the observations under the witness of this path
                        let w = vm.witness();
                        let obs = std::mem::take(&mut vm.obs);
                        let mut h = String::new();
                        vm.ar.next_gen();
                        for o in &obs {
                            let b = match o {
                                ir::V::C(x) => *x as u8,
                                ir::V::S(e) => vm.eval(*e) as u8,
                                _ => 0,
                            };
                            h.push_str(&format!("{:02x}", b));
                        }
                        vm.record(&format!("{{\"kind\":\"sample\",\"inputs\":{},\"obs\":\"{}\"}}", w, h));
                    }
                }
                Stop::Assumed => {
                    sh.assumed.fetch_add(1, SeqCst);
                }
                Stop::Violated => {}
                Stop::Incomplete(msg) => {
                    if msg != "stopped" {
                        sh.incomplete.fetch_add(1, SeqCst);
                        let st = vm.stack_trace();
                        let w = vm.witness();
                        vm.record(&format!("{{\"kind\":\"incomplete\",\"msg\":\"{}\",\"stack\":\"{}\",\"inputs\":{}}}", esc(&msg), esc(&st), w));
                    }
                }
            }
            vm.finish();
        }
        let mut st = 0;
        let mut timed_out = false;
        unsafe {
            setpgid(pid, pid);
            loop {
                let r = waitpid(pid, &mut st, 1);
                if r == pid {
                    break;
                }
                if t0.elapsed().as_secs() >= timeout {
                    timed_out = true;
                    kill(-pid, 9);
                    waitpid(pid, &mut st, 0);
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(5));
            }
        }
        let mut funcs = vec![];
        for (i, n) in names.iter().enumerate() {
            if i < 2048 * 64 && sh.cov[i / 64].load(SeqCst) >> (i % 64) & 1 == 1 {
                let s = String::from_utf8_lossy(n);
                funcs.push(format!("\"{}\"", esc(&format!("{:#}", rustc_demangle::demangle(&s)))));
            }
        }
        let g = |a: &std::sync::atomic::AtomicU64| a.load(SeqCst);
        let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&op).expect("out");
        let summary = format!(
            "{{\"kind\":\"summary\",\"entry\":\"{}\",\"exit\":{},\"timeout\":{},\"paths\":{},\"done\":{},\"assumed\":{},\"incomplete\":{},\"violations\":{},\"known\":{},\"checks_const\":{},\"checks_solver\":{},\"q_sat\":{},\"q_unsat\":{},\"q_unknown\":{},\"fd_queries\":{},\"fd_audited\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"insts\":{},\"max_path_insts\":{},\"forks\":{},\"wall_s\":{:.2},\"functions\":[{}]}}\n",
            entry, st, timed_out, g(&sh.paths), g(&sh.done), g(&sh.assumed), g(&sh.incomplete), g(&sh.violations), g(&sh.known), g(&sh.checks_const), g(&sh.checks_solver), g(&sh.q_sat), g(&sh.q_unsat), g(&sh.q_unknown), g(&sh.fd_q), g(&sh.fd_audit),
            g(&sh.solver_ns) as f64 / 1e9, g(&sh.max_solver_ns) as f64 / 1e9, g(&sh.insts), g(&sh.max_path), g(&sh.forks), t0.elapsed().as_secs_f64(), funcs.join(",")
        );
        let _ = out.write_all(summary.as_bytes());
        eprintln!("{}: paths {} done {} assumed {} incomplete {} violations {} known {} checks {}+{} queries sat {} unsat {} unk {} fd {} solver {:.1}s insts {} wall {:.1}s{}", entry, g(&sh.paths), g(&sh.done), g(&sh.assumed), g(&sh.incomplete), g(&sh.violations), g(&sh.known), g(&sh.checks_const), g(&sh.checks_solver), g(&sh.q_sat), g(&sh.q_unsat), g(&sh.q_unknown), g(&sh.fd_q), g(&sh.solver_ns) as f64/1e9, g(&sh.insts), t0.elapsed().as_secs_f64(), if timed_out {" TIMEOUT"} else {""});
    }
    let _ = start;
    0
}
