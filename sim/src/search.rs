//! The seeded search: many runs, each in its own forked process, spread over
//! workers; statistics; minimisation of a violating run; replay.
use crate::exec::*;
use crate::kernel::*;
use crate::props::*;
use crate::rng::{Rng, Tape};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::time::Instant;

// ------------------------------------------------------------ result transport
const SHM: usize = 48 << 20;
const HDR: usize = 64;
static mut SHMP: *mut u8 = std::ptr::null_mut();

fn map_shared(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}
fn stage(v: u32) {
    unsafe { (*(SHMP as *const AtomicU32)).store(v, Ordering::SeqCst) }
}
pub struct W(pub Vec<u8>);
impl W {
    fn u(&mut self, v: u64) {
        self.0.extend(v.to_le_bytes())
    }
    fn s(&mut self, s: &str) {
        self.u(s.len() as u64);
        self.0.extend(s.as_bytes());
    }
    fn v32(&mut self, v: &[u32]) {
        self.u(v.len() as u64);
        for x in v {
            self.0.extend(x.to_le_bytes())
        }
    }
}
pub struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn u(&mut self) -> u64 {
        let v = u64::from_le_bytes(self.0[..8].try_into().unwrap());
        self.0 = &self.0[8..];
        v
    }
    fn s(&mut self) -> String {
        let n = self.u() as usize;
        let s = String::from_utf8_lossy(&self.0[..n]).to_string();
        self.0 = &self.0[n..];
        s
    }
    fn v32(&mut self) -> Vec<u32> {
        let n = self.u() as usize;
        let v = self.0[..4 * n].chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        self.0 = &self.0[4 * n..];
        v
    }
}
fn enc(o: &Outcome) -> Vec<u8> {
    let mut w = W(vec![]);
    w.u(o.viol.len() as u64);
    for s in &o.viol {
        w.s(s)
    }
    w.s(o.inconclusive.as_deref().unwrap_or(""));
    w.u(o.hash);
    w.u(o.steps);
    w.u(o.sim_ns);
    w.u(o.visited);
    w.u(o.faults.len() as u64);
    for x in &o.faults {
        w.u(*x)
    }
    w.u(o.info.len() as u64);
    for (a, b) in &o.info {
        w.s(a);
        w.u(*b)
    }
    w.s(&o.plan);
    w.u(o.trace.len() as u64);
    for s in &o.trace {
        w.s(s)
    }
    w.v32(&o.gtape);
    let sp: Vec<u32> = o.gspans.iter().flat_map(|x| [x.0, x.1]).collect();
    w.v32(&sp);
    w.v32(&o.stape);
    w.0
}
fn dec(b: &[u8]) -> Outcome {
    let mut r = Rd(b);
    let mut o = Outcome::default();
    for _ in 0..r.u() {
        o.viol.push(r.s())
    }
    let s = r.s();
    o.inconclusive = if s.is_empty() { None } else { Some(s) };
    o.hash = r.u();
    o.steps = r.u();
    o.sim_ns = r.u();
    o.visited = r.u();
    for _ in 0..r.u() {
        let x = r.u();
        o.faults.push(x)
    }
    for _ in 0..r.u() {
        let a = r.s();
        let b = r.u();
        o.info.push((a, b))
    }
    o.plan = r.s();
    for _ in 0..r.u() {
        o.trace.push(r.s())
    }
    o.gtape = r.v32();
    let sp = r.v32();
    o.gspans = sp.chunks(2).map(|c| (c[0], c[1])).collect();
    o.stape = r.v32();
    o
}

// ------------------------------------------------------------------- one run
static mut GTAPE: Option<(Vec<u32>, Vec<(u32, u32)>)> = None;
static mut FULL: bool = false;
static mut PROPID: String = String::new();

/// called by a scenario at the end of its run, in the child process
pub fn deliver(viol: Vec<String>, inconclusive: Option<String>, plan: String, visited: u64, info: Vec<(String, u64)>) -> ! {
    unsafe {
        let kk = k();
        let mut o = Outcome { viol, inconclusive, visited, info, ..Default::default() };
        o.hash = kk.hash;
        o.steps = kk.steps;
        o.sim_ns = kk.now - T0;
        o.faults = kk.faults.to_vec();
        if FULL || !o.viol.is_empty() {
            o.plan = plan;
            o.trace = std::mem::take(&mut kk.log);
            #[allow(static_mut_refs)]
            let (g, s) = GTAPE.take().unwrap_or_default();
            o.gtape = g;
            o.gspans = s;
            o.stape = std::mem::take(&mut kk.tape.tape);
        }
        let b = enc(&o);
        if b.len() + HDR > SHM {
            libc::_exit(9);
        }
        std::ptr::copy_nonoverlapping(b.as_ptr(), SHMP.add(HDR), b.len());
        *(SHMP.add(8) as *mut u64) = b.len() as u64;
        stage(3);
        libc::_exit(0)
    }
}
fn finish_tty(abort: Option<(String, String)>) -> ! {
    stage(2);
    let v = crate::tty::judge(crate::tty::plan(), crate::tty::run_state(), abort);
    deliver(v.viol, v.inconclusive, crate::tty::plan().show(), v.visited, vec![])
}
fn finish_shutdown(abort: Option<(String, String)>) -> ! {
    finish_life(false, abort)
}
fn finish_failure(abort: Option<(String, String)>) -> ! {
    finish_life(true, abort)
}
fn finish_life(failure: bool, abort: Option<(String, String)>) -> ! {
    stage(2);
    let v = crate::life::judge(failure, abort);
    deliver(v.viol, v.inconclusive, crate::life::show(), v.visited, vec![])
}
fn finish_crash(abort: Option<(String, String)>) -> ! {
    stage(2);
    let v = crate::crash::judge(abort);
    deliver(v.viol, v.inconclusive, crate::crash::show(), v.visited, vec![])
}
fn finish_pipe(abort: Option<(String, String)>) -> ! {
    stage(2);
    let v = crate::pipe::judge(abort);
    deliver(v.viol, v.inconclusive, crate::pipe::show(), v.visited, vec![])
}
fn finish_own(abort: Option<(String, String)>) -> ! {
    stage(2);
    let v = crate::own::judge(abort);
    deliver(v.viol, v.inconclusive, crate::own::show(), v.visited, vec![])
}
fn finish_errcap(abort: Option<(String, String)>) -> ! {
    stage(2);
    let v = crate::errcap::judge(abort);
    deliver(v.viol, v.inconclusive, crate::errcap::show(), v.visited, vec![])
}
fn finish_hist(abort: Option<(String, String)>) -> ! {
    stage(2);
    let v = crate::hist::judge(abort);
    deliver(v.viol, v.inconclusive, crate::hist::show(), v.visited, vec![])
}
/// runs in the child process
fn run_child(prop: &Prop, mut gt: Tape, st: Tape, trace: bool) -> ! {
    let ws: Vec<u32> = prop.scns.iter().map(|x| x.0).collect();
    let si = gt.weighted(&ws);
    let save = |gt: Tape| unsafe {
        GTAPE = Some((if gt.rng.is_some() { gt.tape } else { gt.tape[..gt.pos.min(gt.tape.len())].to_vec() }, gt.spans));
    };
    match &prop.scns[si].1 {
        Scn::Tty(m) => {
            let p = crate::tty::gen(&mut gt, prop.id, m);
            save(gt);
            let mut s = crate::gen::setup(&p.tc, p.kn.clone());
            s.stderr_tty = m.ops.err > 0;
            crate::tty::start(p);
            begin(&s, st, trace, finish_tty);
            stage(1);
            guarded(crate::tty::execute);
            end()
        }
        Scn::Pipe(m) | Scn::PipeFail(m) => {
            let (b, p) = crate::pipe::gen(&mut gt, prop.id, m, matches!(&prop.scns[si].1, Scn::PipeFail(_)));
            save(gt);
            let mut s = crate::gen::setup(&b.tc, b.kn.clone());
            s.stdin_tty = p.stdin_tty;
            s.stdout_tty = p.stdout_tty;
            s.term = p.term;
            crate::pipe::start(b, p);
            begin(&s, st, trace, finish_pipe);
            stage(1);
            guarded(crate::pipe::execute);
            end()
        }
        Scn::Hist(live) => {
            let p = crate::hist::gen(&mut gt, *live);
            save(gt);
            let s = crate::gen::setup(&p.tc, p.kn.clone());
            crate::hist::start(p);
            begin(&s, st, trace, finish_hist);
            stage(1);
            guarded(crate::hist::execute);
            end()
        }
        Scn::ErrCap => {
            let p = crate::errcap::gen(&mut gt);
            save(gt);
            let mut s = crate::gen::setup(&p.tc, p.kn.clone());
            s.stderr_tty = p.mode != 1;
            if p.mode == 2 {
                s.term = "dumb";
            }
            crate::errcap::start(p);
            begin(&s, st, trace, finish_errcap);
            stage(1);
            guarded(crate::errcap::execute);
            end()
        }
        Scn::Own => {
            let p = crate::own::gen(&mut gt);
            save(gt);
            let s = crate::gen::setup(&p.tc, p.kn.clone());
            crate::own::start(p);
            begin(&s, st, trace, finish_own);
            stage(1);
            guarded(crate::own::execute);
            end()
        }
        Scn::Crash(m) => {
            let (b, p) = crate::crash::gen(&mut gt, prop.id, m);
            save(gt);
            let s = crate::gen::setup(&b.tc, b.kn.clone());
            crate::crash::start(b, p);
            begin(&s, st, trace, finish_crash);
            stage(1);
            guarded(crate::crash::execute);
            end()
        }
        Scn::Shutdown(m) | Scn::Failure(m) => {
            let failure = matches!(&prop.scns[si].1, Scn::Failure(_));
            let (b, p) = crate::life::gen(&mut gt, prop.id, m, failure);
            save(gt);
            let s = crate::gen::setup(&b.tc, b.kn.clone());
            crate::life::start(b, p);
            begin(&s, st, trace, if failure { finish_failure } else { finish_shutdown });
            stage(1);
            guarded(if failure { crate::life::execute_failure } else { crate::life::execute_shutdown });
            end()
        }
    }
}
/// a panic that leaves an API call is recorded by the hook; the run ends there
fn guarded(f: fn()) {
    let _ = std::panic::catch_unwind(f);
}
pub enum Src {
    Seed(u64),
    Tapes(Vec<u32>, Vec<u32>),
}
/// forks, runs, collects
fn spawn(prop: &Prop, src: &Src, full: bool, trace: bool) -> Outcome {
    unsafe {
        stage(0);
        *(SHMP.add(8) as *mut u64) = 0;
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            FULL = full;
            let rl = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            libc::alarm(100);
            let (g, s) = match src {
                Src::Seed(x) => (Tape::gen(*x), Tape::gen(*x ^ 0x5ced_u64.rotate_left(40))),
                Src::Tapes(g, s) => (Tape::replay(g.clone()), Tape::replay(s.clone())),
            };
            run_child(prop, g, s, trace)
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let stg = (*(SHMP as *const AtomicU32)).load(Ordering::SeqCst);
        if stg == 3 {
            let n = *(SHMP.add(8) as *const u64) as usize;
            let mut o = dec(std::slice::from_raw_parts(SHMP.add(HDR), n));
            if let Src::Tapes(_, s) = src {
                if full || !o.viol.is_empty() {
                    o.stape = s.clone();
                }
            }
            return o;
        }
        let mut o = Outcome { faults: vec![0; F::N as usize], ..Default::default() };
        let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
        if stg == 1 && (sig == libc::SIGXCPU || sig == libc::SIGKILL) {
            o.viol.push("hang: the program uses processor time for ever without any system call".into());
        } else if stg == 1 && (sig == libc::SIGSEGV || sig == libc::SIGABRT || sig == libc::SIGBUS || sig == libc::SIGILL) {
            o.viol.push(format!("the process was killed by signal {}", sig));
        } else {
            o.inconclusive = Some(format!("run ended in stage {} with status {:#x}", stg, st));
        }
        o
    }
}
fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ base.wrapping_mul(0x9E3779B97F4A7C15);
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h.wrapping_add(i.wrapping_mul(0xD1B54A32D192ED03)));
    r.next()
}
fn setup_shm() {
    unsafe {
        SHMP = map_shared(SHM);
    }
}
fn cov_map() -> *mut u8 {
    let p = map_shared(1 << 20);
    set_cov(p);
    p
}
fn get_prop(id: &str) -> Prop {
    match prop(id) {
        Some(p) => p,
        None => {
            eprintln!("no such property {}", id);
            std::process::exit(2)
        }
    }
}
fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

pub fn one(id: &str, i: u64) -> i32 {
    let p = get_prop(id);
    setup_shm();
    let o = spawn(&p, &Src::Seed(seed_of(env_u64("VERIF_SEED", 1), id, i)), true, true);
    println!("{}", o.plan);
    for l in &o.trace {
        println!("{}", l);
    }
    println!("inconclusive: {:?}\nviolations: {:#?}\nsteps {} hash {:016x} visited {} sim {}ms", o.inconclusive, o.viol, o.steps, o.hash, o.visited, o.sim_ns / MS);
    !o.viol.is_empty() as i32
}
pub fn determinism(id: &str, n: u64) -> i32 {
    let p = get_prop(id);
    setup_shm();
    let mut bad = 0;
    let seed = env_u64("VERIF_SEED", 1);
    for i in 0..n {
        let a = spawn(&p, &Src::Seed(seed_of(seed, id, i)), true, true);
        let b = spawn(&p, &Src::Seed(seed_of(seed, id, i)), false, false);
        let c = spawn(&p, &Src::Tapes(a.gtape.clone(), a.stape.clone()), true, true);
        if a.hash != b.hash || a.steps != b.steps || a.viol != b.viol || a.hash != c.hash || a.trace != c.trace || a.viol != c.viol {
            bad += 1;
            println!("run {} differs: {:x} {:x} {:x} steps {} {} {} trace equal {}", i, a.hash, b.hash, c.hash, a.steps, b.steps, c.steps, a.trace == c.trace);
            for (x, y) in a.trace.iter().zip(&c.trace) {
                if x != y {
                    println!("  {}\n  {}", x, y);
                    break;
                }
            }
        }
    }
    println!("{} runs of {}, each executed twice from its seed and once from its tapes: {} differ", n, id, bad);
    (bad > 0) as i32
}

// -------------------------------------------------------------------- search
#[derive(Default)]
struct Stats {
    runs: u64,
    inconclusive: u64,
    why: std::collections::BTreeMap<String, u64>,
    steps: u64,
    sim_ns: u64,
    visited: u64,
    faults: Vec<u64>,
    hashes: BTreeSet<u64>,
    nontrivial: u64,
    info: std::collections::BTreeMap<String, u64>,
}
struct Found {
    index: u64,
}
fn worker(p: &Prop, seed: u64, w: u64, n: u64, total: u64, deadline: Instant, stop: *const AtomicU64, mut out: std::fs::File) {
    let id = p.id;
    let mut i = w;
    while i < total && Instant::now() < deadline {
        let s = unsafe { (*stop).load(Ordering::Relaxed) };
        if i > s {
            break;
        }
        let mut o = spawn(p, &Src::Seed(seed_of(seed, id, i)), false, false);
        if !o.viol.is_empty() {
            // only what happens again is a result; anything else has its cause
            // outside the simulation (memory running out, for example)
            let again = spawn(p, &Src::Seed(seed_of(seed, id, i)), false, false);
            if again.viol != o.viol || again.hash != o.hash {
                let first = o.viol[0].clone();
                o = again;
                o.viol.clear();
                o.inconclusive = Some(format!("not reproduced: {}", first));
            }
        }
        let mut m = W(vec![]);
        m.u(i);
        m.u(!o.viol.is_empty() as u64);
        m.s(o.inconclusive.as_deref().unwrap_or(""));
        m.u(o.hash);
        m.u(o.steps);
        m.u(o.sim_ns);
        m.u(o.visited);
        m.u(o.faults.len() as u64);
        for x in &o.faults {
            m.u(*x)
        }
        m.u(o.info.len() as u64);
        for (a, b) in &o.info {
            m.s(a);
            m.u(*b)
        }
        let mut f = (m.0.len() as u64).to_le_bytes().to_vec();
        f.extend(m.0);
        if out.write_all(&f).is_err() {
            break;
        }
        if !o.viol.is_empty() {
            // only lower indices are still of interest
            unsafe { (*stop).fetch_min(i, Ordering::Relaxed) };
        }
        i += n;
    }
}
fn search(p: &Prop, seed: u64, total: u64, secs: f64, st: &mut Stats) -> Option<Found> {
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4) as u64;
    let stop = map_shared(4096) as *const AtomicU64;
    unsafe { (*stop).store(u64::MAX - 1, Ordering::SeqCst) };
    let deadline = Instant::now() + std::time::Duration::from_secs_f64(secs);
    let mut pids = vec![];
    let mut rds: Vec<std::fs::File> = vec![];
    use std::os::fd::FromRawFd;
    for w in 0..n {
        let mut fds = [0i32; 2];
        unsafe {
            libc::pipe(fds.as_mut_ptr());
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                setup_shm();
                worker(p, seed, w, n, total, deadline, stop, std::fs::File::from_raw_fd(fds[1]));
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pids.push(pid);
            rds.push(std::fs::File::from_raw_fd(fds[0]));
        }
    }
    let mut found: Option<Found> = None;
    let mut bufs: Vec<Vec<u8>> = vec![vec![]; rds.len()];
    let mut open = vec![true; rds.len()];
    st.faults = vec![0; F::N as usize];
    while open.iter().any(|x| *x) {
        let mut pf: Vec<libc::pollfd> = vec![];
        let mut ix = vec![];
        use std::os::fd::AsRawFd;
        for (j, r) in rds.iter().enumerate() {
            if open[j] {
                pf.push(libc::pollfd { fd: r.as_raw_fd(), events: libc::POLLIN, revents: 0 });
                ix.push(j);
            }
        }
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000) };
        for (q, j) in pf.iter().zip(ix) {
            if q.revents == 0 {
                continue;
            }
            let mut b = [0u8; 65536];
            match rds[j].read(&mut b) {
                Ok(0) | Err(_) => open[j] = false,
                Ok(c) => bufs[j].extend(&b[..c]),
            }
            loop {
                let v = &bufs[j];
                if v.len() < 8 {
                    break;
                }
                let l = u64::from_le_bytes(v[..8].try_into().unwrap()) as usize;
                if v.len() < 8 + l {
                    break;
                }
                let rec: Vec<u8> = v[8..8 + l].to_vec();
                bufs[j].drain(..8 + l);
                let mut r = Rd(&rec);
                let i = r.u();
                let viol = r.u() == 1;
                let inc = r.s();
                let hash = r.u();
                st.runs += 1;
                let steps = r.u();
                st.steps += steps;
                st.sim_ns += r.u();
                st.visited += r.u();
                for f in 0..r.u() as usize {
                    st.faults[f] += r.u();
                }
                for _ in 0..r.u() {
                    let a = r.s();
                    let b = r.u();
                    *st.info.entry(a).or_default() += b;
                }
                if st.hashes.insert(hash) && steps > 50 && inc.is_empty() {
                    st.nontrivial += 1;
                }
                if !inc.is_empty() {
                    st.inconclusive += 1;
                    let key: String = inc.chars().take(70).collect();
                    if st.why.len() < 30 || st.why.contains_key(&key) {
                        *st.why.entry(key).or_default() += 1;
                    }
                }
                if viol && found.as_ref().map_or(true, |f| i < f.index) {
                    found = Some(Found { index: i });
                }
            }
        }
    }
    for p in pids {
        let mut s = 0;
        unsafe { libc::waitpid(p, &mut s, 0) };
    }
    found
}

/// the kind of a violation, for the minimiser
fn class(v: &[String]) -> String {
    let s = v.first().cloned().unwrap_or_default();
    let mut c: String = s.chars().filter(|c| c.is_alphabetic() || *c == ' ').collect();
    for w in ["phase ", "thread "] {
        c = c.replace(w, "");
    }
    c.split_whitespace().take(3).collect::<Vec<_>>().join(" ")
}
fn minimise(p: &Prop, o: Outcome, secs: f64) -> Outcome {
    let t0 = Instant::now();
    let cls = class(&o.viol);
    let mut best = o;
    let mut tries = 0;
    let size = |o: &Outcome| (o.gtape.iter().filter(|x| **x != 0).count() + o.gtape.len(), o.stape.iter().filter(|x| **x != 0).count(), o.steps);
    let mut attempt = |best: &mut Outcome, g: Vec<u32>, mut s: Vec<u32>| -> bool {
        if t0.elapsed().as_secs_f64() > secs {
            return false;
        }
        while s.last() == Some(&0) {
            s.pop();
        }
        tries += 1;
        let r = spawn(p, &Src::Tapes(g, s), true, false);
        if !r.viol.is_empty() && class(&r.viol) == cls && size(&r) < size(best) {
            *best = r;
            return true;
        }
        false
    };
    let e: Vec<u32> = vec![];
    let g = best.gtape.clone();
    attempt(&mut best, g, e);
    loop {
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        let before = size(&best);
        // delete generated items
        let mut i = 0;
        loop {
            let mut sp = best.gspans.clone();
            sp.sort_by_key(|x| std::cmp::Reverse(x.1 - x.0));
            if i >= sp.len() {
                break;
            }
            let (a, b) = sp[i];
            let mut g = best.gtape.clone();
            if b as usize <= g.len() {
                g.drain(a as usize..b as usize);
                let s = best.stape.clone();
                if attempt(&mut best, g.clone(), s) || attempt(&mut best, g, vec![]) {
                    continue;
                }
            }
            i += 1;
        }
        // plain values
        for len in [64usize, 16, 4, 1] {
            let mut i = 0;
            while i < best.gtape.len() {
                let e = (i + len).min(best.gtape.len());
                if best.gtape[i..e].iter().any(|x| *x != 0) {
                    let mut g = best.gtape.clone();
                    g[i..e].fill(0);
                    let s = best.stape.clone();
                    attempt(&mut best, g, s);
                }
                i += len;
            }
        }
        // fewer scheduling decisions
        let mut n = best.stape.len();
        while n > 0 {
            n /= 2;
            let (g, s) = (best.gtape.clone(), best.stape[..n.min(best.stape.len())].to_vec());
            attempt(&mut best, g, s);
        }
        for len in [512usize, 128, 32, 8, 2, 1] {
            let mut i = 0;
            while i < best.stape.len() {
                let e = (i + len).min(best.stape.len());
                if best.stape[i..e].iter().any(|x| *x != 0) {
                    let mut s = best.stape.clone();
                    s[i..e].fill(0);
                    let g = best.gtape.clone();
                    attempt(&mut best, g, s);
                }
                i += len;
            }
        }
        if size(&best) >= before {
            break;
        }
    }
    let (g, s) = (best.gtape.clone(), best.stape.clone());
    let mut r = spawn(p, &Src::Tapes(g, s), true, true);
    r.info.push(("minimiser_runs".into(), tries));
    r
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n  "))
}
fn jn(v: &[u32]) -> String {
    format!("[{}]", v.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(","))
}
/// the feature combination of this build
fn variant() -> &'static str {
    if cfg!(feature = "capture") {
        "capture"
    } else if cfg!(feature = "noglobal") {
        "noglobal"
    } else {
        "std"
    }
}
fn root() -> String {
    std::env::var("LISOSIM_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn write_replay(id: &str, seed: u64, idx: u64, o: &Outcome) -> String {
    let d = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&d);
    let f = format!("{}/{}-{}-s{}-r{}.json", d, id, variant(), seed, idx);
    let s = format!(
        "{{\"property\": {}, \"build\": {},\n \"seed\": {}, \"run\": {}, \"hash\": \"{:016x}\",\n \"violations\": {},\n \"plan\": {},\n \"trace\": {},\n \"generation_tape\": {},\n \"schedule_tape\": {}}}\n",
        js(id),
        js(variant()),
        seed,
        idx,
        o.hash,
        jl(&o.viol),
        jl(&o.plan.lines().map(|s| s.to_string()).collect::<Vec<_>>()),
        jl(&o.trace),
        jn(&o.gtape),
        jn(&o.stape)
    );
    std::fs::write(&f, s).expect("cannot write the replay file");
    f
}
fn field<'a>(s: &'a str, name: &str) -> &'a str {
    let k = format!("\"{}\": ", name);
    let i = s.rfind(&k).unwrap_or_else(|| panic!("no {} in replay file", name)) + k.len();
    &s[i..]
}
fn nums(s: &str) -> Vec<u32> {
    let e = s.find(']').unwrap();
    s[1..e].split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect()
}
pub fn replay(f: &str) -> i32 {
    let s = std::fs::read_to_string(f).expect("replay file");
    let i = s.find("\"property\": \"").unwrap() + 13;
    let id = &s[i..i + 3];
    let p = get_prop(id);
    setup_shm();
    let g = nums(field(&s, "generation_tape"));
    let t = nums(field(&s, "schedule_tape"));
    let hash = &field(&s, "hash")[1..17];
    let o = spawn(&p, &Src::Tapes(g, t), true, true);
    println!("{}", o.plan);
    for l in &o.trace {
        println!("{}", l);
    }
    for v in &o.viol {
        println!("violated: {}", v);
    }
    let same = format!("{:016x}", o.hash) == hash;
    println!("execution {} ({:016x})", if same { "identical to the recorded one" } else { "differs from the recorded one" }, o.hash);
    if o.viol.is_empty() {
        0
    } else {
        println!("VIOLATION property={} replay={}", id, f);
        1
    }
}
pub fn check(id: &str) -> i32 {
    let p = get_prop(id);
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let total = env_u64("LISOSIM_RUNS", if thorough { p.thorough } else { p.quick });
    let secs = env_u64("LISOSIM_SECS", if thorough { 600 } else { 150 }) as f64;
    let cov = cov_map();
    setup_shm();
    let mut st = Stats::default();
    let found = search(&p, seed, total, secs, &mut st);
    let search_s = t0.elapsed().as_secs_f64();
    let edges = unsafe { (0..=COV_N).filter(|&i| *cov.add(i) != 0).count() };
    let mut viol = 0;
    let mut code = 0;
    let mut line = String::new();
    let mut sample = vec![];
    // one executed case, written out
    let ex = spawn(&p, &Src::Seed(seed_of(seed, id, 0)), true, false);
    sample.push(ex.plan.clone());
    if let Some(f) = &found {
        let o = spawn(&p, &Src::Seed(seed_of(seed, id, f.index)), true, false);
        if o.viol.is_empty() {
            eprintln!("run {} does not reproduce: harness defect", f.index);
            return 2;
        }
        viol = 1;
        let r = if o.gtape.is_empty() && o.stape.is_empty() { o } else { minimise(&p, o, env_u64("LISOSIM_SHRINK", 20) as f64) };
        let file = write_replay(id, seed, f.index, &r);
        for v in &r.viol {
            println!("{}: {}", id, v);
        }
        println!("{}", r.plan);
        line = format!("VIOLATION property={} replay={}", id, file);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut faults = String::new();
    for (i, n) in FNAMES.iter().enumerate() {
        if st.faults[i] > 0 {
            let _ = write!(faults, "{}{}: {}", if faults.is_empty() { "" } else { ", " }, js(n), st.faults[i]);
        }
    }
    let info: Vec<String> = st.info.iter().map(|(a, b)| format!("{}: {}", js(a), b)).collect();
    let why: Vec<String> = st.why.iter().map(|(a, b)| format!("{}: {}", js(a), b)).collect();
    let per_h = |x: f64| (x / search_s * 3600.0) as u64;
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n\"coverage\": {{\n \"build\": {}, \"evaluations\": {},\n \"distinct_nontrivial\": {},\n \"rule\": {},\n \"simulated_runs_per_hour\": {}, \"seeds_per_hour\": {},\n \"simulated_time_s\": {:.1}, \"scheduler_steps\": {},\n \"distinct_interleavings\": {}, \"interleaving_measure\": \"hash over every scheduling decision, delivered event and system call result of a run\",\n \"instrumented_edges_of_liso_reached\": {}, \"instrumented_edges_of_liso\": {},\n \"model_states_visited\": {},\n \"inconclusive_runs\": {}, \"inconclusive_reasons\": {{{}}},\n \"faults_injected\": {{{}}},\n \"scenario_counts\": {{{}}},\n \"real_components\": [\"liso (all of /repo/src, unmodified)\", \"std (threads, mpsc, io, sync)\", \"tokio\", \"crossterm\", \"parking_lot\", \"nix\", \"textwrap\"],\n \"stubbed_components\": [\"kernel behind libc: scheduler, futexes, clock, timers, signals, file descriptors, pipes\", \"terminal (tty line discipline and ANSI/VT52 emulator)\", \"file system\", \"user and application threads (generated)\"],\n \"samples\": [{}]\n}},\n\"assumptions\": [\"threads switch only at system calls and at instrumented basic blocks of liso; the memory model is sequentially consistent\", \"the simulated kernel, terminal and file system behave like Linux, xterm/VT52 and an ordered-journal file system for the calls liso makes\"],\n\"wall_s\": {:.1}, \"violations\": {}}}\n",
        js(id), js(&tier), seed, js(variant()), st.runs, st.nontrivial,
        js("each run draws a terminal, an application (threads and requests), keyboard input, faults and a schedule from its seed; it is non-trivial if it took more than 50 scheduling steps, was decided, and no earlier run had the same interleaving hash"),
        per_h(st.runs as f64), per_h(st.runs as f64),
        st.sim_ns as f64 / 1e9, st.steps, st.hashes.len(), edges, unsafe { COV_N }, st.visited, st.inconclusive, why.join(", "), faults, info.join(", "),
        sample.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), wall, viol
    );
    let file = std::env::var("LISOSIM_EVIDENCE").unwrap_or_else(|_| {
        let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
        format!("{}/evidence/{}.json", root(), id)
    });
    std::fs::write(file, ev).expect("cannot write evidence");
    println!(
        "{}: {} runs ({} distinct, {} inconclusive), {:.0}s of simulated time, {} of {} edges, {:.1}s",
        id, st.runs, st.hashes.len(), st.inconclusive, st.sim_ns as f64 / 1e9, edges, unsafe { COV_N }, wall
    );
    for (w, n) in st.why.iter().take(if std::env::var("LISOSIM_VERBOSE").is_ok() { 30 } else { 0 }) {
        println!("  inconclusive {}: {}", n, w);
    }
    if code == 1 {
        println!("{}", line);
    } else if st.inconclusive * 2 > st.runs {
        println!("{}: most runs were inconclusive", id);
    }
    code
}
