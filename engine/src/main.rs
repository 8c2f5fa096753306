//! symex: symbolic execution of a linked LLVM IR module, deciding harness
//! assertions with Z3.  See /verif/DESIGN.md.
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

#[repr(C)]
struct PollFd {
    fd: c_int,
    events: i16,
    revents: i16,
}

extern "C" {
    fn fork() -> c_int;
    fn _exit(c: c_int) -> !;
    fn pipe(f: *mut c_int) -> c_int;
    fn read(f: c_int, b: *mut c_void, n: usize) -> isize;
    fn write(f: c_int, b: *const c_void, n: usize) -> isize;
    fn fcntl(f: c_int, c: c_int, ...) -> c_int;
    fn poll(p: *mut PollFd, n: u64, t: c_int) -> c_int;
    fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
    fn prctl(o: c_int, ...) -> c_int;
    fn getpid() -> c_int;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
}

struct Job {
    idx: usize,
    name: String,
    entry: String,
    params: Vec<u64>,
    mandatory: bool,
}

struct Ctl {
    rd: c_int,
    wr: c_int,
    shared: &'static [AtomicU32],
    out: std::fs::File,
    t0: Instant,
    hard: Duration,
    soft: Duration,
    maxviol: u32,
    maxtotal: u32,
}

impl Ctl {
    fn try_token(&self) -> bool {
        let mut b = 0u8;
        unsafe { read(self.rd, &mut b as *mut u8 as *mut c_void, 1) == 1 }
    }
    fn give(&self) {
        let b = 1u8;
        unsafe {
            write(self.wr, &b as *const u8 as *const c_void, 1);
        }
    }
    fn stopped(&self, j: &Job) -> bool {
        let e = self.t0.elapsed();
        self.shared[j.idx].load(Ordering::Relaxed) >= self.maxviol
            || self.shared[self.shared.len() - 1].load(Ordering::Relaxed) >= self.maxtotal
            || e > self.hard || (!j.mandatory && e > self.soft)
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn strs(v: &[String]) -> String {
    let q: Vec<String> = v.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    format!("[{}]", q.join(","))
}

fn explore(eng: &mut Engine, ctl: &mut Ctl, job: &Job) {
    let mut spawned = 0u32;
    let mut complete = true;
    let mut last = Instant::now();
    let mut seen: Vec<(String, String, String)> = Vec::new();
    let mut start = Instant::now();
    let mut parent = unsafe { getpid() };
    let mut id = parent;
    while let Some(st) = eng.work.pop() {
        if ctl.stopped(job) {
            complete = false;
            break;
        }
        if !eng.work.is_empty() && last.elapsed() > Duration::from_millis(15) && ctl.try_token() {
            eng.work.push(st);
            last = Instant::now();
            spawned += 1;
            let pid = unsafe { fork() };
            if pid == 0 {
                parent = id;
                id = unsafe { getpid() };
                spawned = 0;
                // the child takes every other pending state
                let w = std::mem::take(&mut eng.work);
                eng.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect();
                eng.js = JobStats::default();
                eng.covers = 0;
                eng.viols.clear();
                eng.samples.clear();
                eng.so.st = Default::default();
                for e in eng.executed.iter_mut() {
                    *e = false;
                }
                eng.sample_max = 1;
                start = Instant::now();
            } else if pid > 0 {
                let w = std::mem::take(&mut eng.work);
                eng.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|x| x.1).collect();
            } else {
                spawned -= 1;
                ctl.give();
            }
            continue;
        }
        let sh = ctl.shared;
        let (t0, hard, soft, mv, mt) = (ctl.t0, ctl.hard, ctl.soft, ctl.maxviol, ctl.maxtotal);
        let (jidx, jm) = (job.idx, job.mandatory);
        let ok = eng.run_path(st, &mut |_e: &mut Engine| {
            let el = t0.elapsed();
            sh[jidx].load(Ordering::Relaxed) >= mv || sh[sh.len() - 1].load(Ordering::Relaxed) >= mt || el > hard || (!jm && el > soft)
        });
        if !ok {
            complete = false;
            break;
        }
        let vs = std::mem::take(&mut eng.viols);
        for v in vs {
            let sig = (v.kind.clone(), v.msg.clone(), v.stack.first().cloned().unwrap_or_default());
            if seen.contains(&sig) {
                continue;
            }
            seen.push(sig);
            ctl.shared[job.idx].fetch_add(1, Ordering::Relaxed);
            ctl.shared[ctl.shared.len() - 1].fetch_add(1, Ordering::Relaxed);
            let line = format!(
                "{{\"t\":\"viol\",\"job\":{},\"name\":\"{}\",\"kind\":\"{}\",\"msg\":\"{}\",\"inputs\":\"{}\",\"stack\":{}}}\n",
                job.idx,
                esc(&job.name),
                v.kind,
                esc(&v.msg),
                v.inputs,
                strs(&v.stack)
            );
            let _ = ctl.out.write_all(line.as_bytes());
        }
        if eng.js.errors.len() >= 3 {
            complete = false;
            break;
        }
    }
    if !eng.js.errors.is_empty() {
        complete = false;
    }
    let ex: Vec<String> = eng
        .executed
        .iter()
        .enumerate()
        .filter(|(_, e)| **e)
        .map(|(i, _)| i.to_string())
        .collect();
    let line = format!(
        "{{\"t\":\"done\",\"job\":{},\"pid\":{},\"parent\":{},\"spawned\":{},\"complete\":{},\"paths\":{},\"assumed\":{},\"forks\":{},\"steps\":{},\"max_steps\":{},\"max_pc\":{},\"checks\":{},\"sym_checks\":{},\"xpanics\":{},\"queries\":{},\"bytewise\":{},\"hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_us\":{},\"max_query_us\":{},\"exprs\":{},\"covers\":\"{:032x}\",\"ms\":{},\"errors\":{},\"samples\":{},\"fns\":[{}]}}\n",
        job.idx,
        id,
        parent,
        spawned,
        complete,
        eng.js.paths,
        eng.js.assumed,
        eng.js.forks,
        eng.js.steps,
        eng.js.max_steps,
        eng.js.max_pc,
        eng.js.checks,
        eng.js.sym_checks,
        eng.js.expected_panics,
        eng.so.st.queries,
        eng.so.st.bytewise,
        eng.so.st.cache_hits,
        eng.so.st.sat,
        eng.so.st.unsat,
        eng.so.st.unknown,
        eng.so.st.time_us,
        eng.so.st.max_us,
        eng.ar.nodes.len(),
        eng.covers,
        start.elapsed().as_millis(),
        strs(&eng.js.errors),
        strs(&eng.samples),
        ex.join(",")
    );
    let _ = ctl.out.write_all(line.as_bytes());
}

fn reap(ctl: &Ctl, block: bool) -> bool {
    loop {
        let mut s: c_int = 0;
        let r = unsafe { waitpid(-1, &mut s, if block { 0 } else { 1 }) };
        if r < 0 {
            return false;
        }
        if r == 0 {
            return true;
        }
        if s != 0 {
            // ended abnormally: its token is lost and its "done" record missing
            eprintln!("symex: worker {} ended with status {}", r, s);
            ctl.give();
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| -> String {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1).cloned())
            .unwrap_or(d.to_string())
    };
    let ir = opt("--ir", "");
    let jobs_f = opt("--jobs", "");
    let out_f = opt("--out", "");
    let procs: usize = opt("--procs", "8").parse().unwrap();
    let hard: f64 = opt("--hard", "600").parse().unwrap();
    let soft: f64 = opt("--soft", "60").parse().unwrap();
    let maxviol: u32 = opt("--maxviol", "3").parse().unwrap();
    let maxtotal: u32 = opt("--maxtotal", "12").parse().unwrap();
    let limit: u64 = opt("--step-limit", "40000000").parse().unwrap();
    let t0 = Instant::now();
    let m = match ir::Module::load(&ir) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symex: {}: {}", ir, e);
            std::process::exit(2);
        }
    };
    let mut jobs = Vec::new();
    for (i, l) in std::fs::read_to_string(&jobs_f).unwrap().lines().enumerate() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() < 4 {
            continue;
        }
        jobs.push(Job {
            idx: i,
            name: f[0].into(),
            entry: f[1].into(),
            params: f[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            mandatory: f[3] == "1",
        });
    }
    let nj = jobs.iter().map(|j| j.idx + 1).max().unwrap_or(1) + 1;
    let shared = unsafe {
        let p = mmap(std::ptr::null_mut(), nj * 4 + 4096, 3, 0x21, -1, 0);
        std::slice::from_raw_parts(p as *const AtomicU32, nj)
    };
    let mut fds = [0 as c_int; 2];
    unsafe {
        pipe(fds.as_mut_ptr());
        fcntl(fds[0], 4, 0o4000 as c_int); // F_SETFL O_NONBLOCK
        prctl(36, 1u64, 0u64, 0u64, 0u64); // PR_SET_CHILD_SUBREAPER
    }
    let out = std::fs::OpenOptions::new().create(true).append(true).open(&out_f).unwrap();
    let mut ctl = Ctl {
        rd: fds[0],
        wr: fds[1],
        shared,
        out,
        t0,
        hard: Duration::from_secs_f64(hard),
        soft: Duration::from_secs_f64(soft),
        maxviol,
        maxtotal,
    };
    for _ in 0..procs {
        ctl.give();
    }
    let names: Vec<String> = m.fns.iter().map(|f| f.name.clone()).collect();
    {
        let mut s = String::from("{\"t\":\"fns\",\"names\":");
        s.push_str(&strs(&names));
        s.push_str("}\n");
        let _ = ctl.out.write_all(s.as_bytes());
    }
    let mut eng = Engine::new(m);
    eng.step_limit = limit;
    for job in &jobs {
        loop {
            if ctl.try_token() {
                break;
            }
            reap(&ctl, false);
            let mut p = PollFd {
                fd: ctl.rd,
                events: 1,
                revents: 0,
            };
            unsafe {
                poll(&mut p, 1, 100);
            }
        }
        if ctl.stopped(job) {
            ctl.give();
            continue;
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            eng.params = job.params.clone();
            let r = eng.start(&job.entry);
            match r {
                Ok(st) => eng.work.push(st),
                Err(e) => eng.js.errors.push(e),
            }
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                // deep expression recursion needs stack
                explore(&mut eng, &mut ctl, job);
            }));
            if res.is_err() {
                unsafe { _exit(3) }
            }
            ctl.give();
            unsafe { _exit(0) }
        }
        if pid < 0 {
            ctl.give();
        }
        reap(&ctl, false);
    }
    while reap(&ctl, true) {}
}
