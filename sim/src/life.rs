//! The life of instances: shutting down from any state (P09), failing
//! terminals (P10).
use crate::exec::*;
use crate::gen::*;
use crate::kernel::*;
use crate::model::*;
use crate::rng::Tape;
use crate::tty::{app_items, as_dur, do_op, make_history, plan as tplan, run_state, show_op, Mix, Op};
use crate::vt::{row_text, Kind, Vt};
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Drop,
    BlockingDie,
    Die,
    /// `die` is polled a few times, then its future is dropped
    DieCancelled(u32),
    /// dropped by another thread
    Elsewhere,
    /// dropped while the application's thread unwinds
    Unwind,
    /// within a task of a Tokio runtime: dropped, blocking_die, die
    TaskDrop,
    TaskBlockingDie,
    TaskDie,
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub how: How,
    /// the application waits for its threads first
    pub join: bool,
    /// and for everything to calm down
    pub calm: bool,
    /// a thread that prints for as long as it can
    pub flood: bool,
    pub dead_reads: u32,
    /// how a program that ignores Dead goes on reading
    pub stuck: u32,
    pub fault: Fault,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// from the nth write on, `count` writes fail
    Write { nth: u64, errno: i32, count: u64 },
    /// the line is hung up; reads then fail with errno (0: end of file)
    Hang { after: u64, errno: i32 },
    ReadErr { after: u64 },
    /// the nth mode change fails
    Mode { nth: u64 },
    /// the terminal fails while Liso sets it up
    SetupMode { nth: u64 },
    SetupWrite { nth: u64, errno: i32, count: u64 },
    SetupHang { after: u64, errno: i32 },
    /// a thread can't be started
    SetupThread { nth: u64 },
}
impl Fault {
    fn setup(&self) -> bool {
        matches!(self, Fault::SetupMode { .. } | Fault::SetupWrite { .. } | Fault::SetupHang { .. } | Fault::SetupThread { .. })
    }
}
pub struct Plan {
    pub insts: Vec<Inst>,
    pub reads: Vec<RK>,
}
#[derive(Default)]
pub struct IRec {
    pub row0: usize,
    pub ep0: usize,
    pub bells0: u64,
    pub resp0: usize,
    pub calls0: usize,
    pub t0: u64,
    pub arm: u64,
    pub dead_at: u64,
    pub inv: u64,
    pub ret: u64,
    pub obs: Option<Obs>,
    pub chunks: (usize, usize),
    pub chunks_a: usize,
    pub lines: Vec<(Vec<String>, u64, u64)>,
}
#[derive(Default)]
pub struct LRun {
    pub inst: Vec<IRec>,
    pub viol: Vec<String>,
    pub flood: Vec<(String, OpRec)>,
    pub floods: Vec<Vec<(String, OpRec)>>,
    pub done: bool,
    /// responses read before this instance
    pub resp0: usize,
}
static mut PLAN: Option<&'static Plan> = None;
static mut RUN: Option<&'static mut LRun> = None;
pub fn plan() -> &'static Plan {
    unsafe { PLAN.unwrap() }
}
#[allow(static_mut_refs)]
pub fn lrun() -> &'static mut LRun {
    unsafe { RUN.as_mut().unwrap() }
}
/// responses before the present instance
pub fn set_resp0(n: usize) {
    unsafe { RESP0 = n }
}
static mut RESP0: usize = 0;
fn complain(s: String) {
    if k().trace {
        k().tlog(format!("!! {}", s));
    }
    if plan_is_set() {
        lrun().viol.push(s);
    } else if crate::pipe::is_set() {
        crate::pipe::complain(s);
    } else if crate::crash::is_set() {
        crate::crash::complain(s);
    } else {
        rec().err_fail.push(s);
    }
}
#[allow(static_mut_refs)]
fn plan_is_set() -> bool {
    unsafe { PLAN.is_some() }
}

/// with faults, an instance takes two phases of the tty plan
pub fn gen(t: &mut Tape, prop: &str, m: &Mix, faults: bool) -> (crate::tty::Plan, Plan) {
    let mut base = crate::tty::gen(t, prop, m);
    base.echo_off = true;
    base.kn.max_steps = 300_000;
    let n = if faults { (base.phases.len() + 1) / 2 } else { base.phases.len() };
    let mut insts = vec![];
    for _ in 0..n {
        insts.push(t.span(|t| {
            let how = match t.weighted(&[6, 3, 3, 2, 2, 1, 1, 1, 1]) {
                0 => How::Drop,
                1 => How::BlockingDie,
                2 => How::Die,
                3 => How::DieCancelled(t.int(1, 3) as u32),
                4 => How::Elsewhere,
                6 => How::TaskDrop,
                7 => How::TaskBlockingDie,
                8 => How::TaskDie,
                _ => How::Unwind,
            };
            let errno = *t.pick(&[libc::EIO, libc::EPIPE, libc::ENOSPC, libc::EAGAIN, libc::EBADF]);
            let fault = if !faults {
                Fault::None
            } else {
                let count = *t.pick(&[1u64, u64::MAX, 2, 3]);
                let after = *t.pick(&[0u64, 20_000, 200_000, 3 * MS, 50 * MS, 700 * MS]);
                let herr = *t.pick(&[libc::EIO, 0]);
                match t.weighted(&[6, 5, 3, 2, 2, 2, 1, 2]) {
                    0 => Fault::Write { nth: 1 + t.below(12) as u64, errno, count },
                    1 => Fault::Hang { after, errno: herr },
                    2 => Fault::ReadErr { after },
                    3 => Fault::Mode { nth: 1 + t.below(4) as u64 },
                    4 => Fault::SetupMode { nth: 1 + t.below(2) as u64 },
                    5 => Fault::SetupWrite { nth: 1 + t.below(2) as u64, errno, count },
                    7 => Fault::SetupThread { nth: 2 + t.below(3) as u64 },
                    _ => Fault::SetupHang { after: after.min(300_000), errno: herr },
                }
            };
            Inst { how, join: t.chance(0.4), calm: t.chance(0.4), flood: !faults && t.chance(0.2), dead_reads: t.int(0, 7) as u32, stuck: t.int(0, 7) as u32, fault }
        }));
    }
    if insts.iter().any(|x| x.flood) {
        // no scheduler lets one thread run all the time
        base.kn.pct = false;
        base.kn.p_switch = base.kn.p_switch.max(0.05);
        if base.kn.edge_mean == 0 {
            base.kn.edge_mean = 400;
        }
        for p in &mut base.phases {
            p.stall = None;
            for th in &mut p.threads {
                th.retain(|o| !matches!(o, Op::Suspend { .. } | Op::Sleep(_)));
            }
            for c in &mut p.chunks {
                c.b.retain(|b| *b != 0x1a);
            }
            p.chunks.retain(|c| !c.b.is_empty());
        }
    }
    let reads = t.list(12, 0.85, |t| match t.below(8) {
        0 => RK::Try,
        1 => RK::Timeout(*t.pick(&[1000u64, 50_000, 300_000])),
        2 => RK::Deadline(*t.pick(&[1000i64, 30_000, -1000])),
        3 => RK::Cancel(*t.pick(&[1u32, 2, 4])),
        4 => RK::Blocking,
        5 => RK::Tokio(*t.pick(&[None, Some(20_000u64)])),
        6 => RK::Longest,
        _ => RK::Async,
    });
    (base, Plan { insts, reads })
}
pub fn show() -> String {
    let p = plan();
    let mut s = tplan().show();
    for (i, x) in p.insts.iter().enumerate() {
        s.push_str(&format!("instance {}: {:?}\n", i, x));
    }
    if p.insts.iter().any(|x| x.fault != Fault::None) {
        s.push_str(&format!("reads until the end: {:?}\n", p.reads));
    }
    s
}
pub fn start(b: crate::tty::Plan, p: Plan) {
    crate::tty::start(b);
    unsafe {
        PLAN = Some(Box::leak(Box::new(p)));
        RUN = Some(Box::leak(Box::default()));
    }
}

/// like tty::recorded, but the call may find the instance dead
fn attempt(pi: usize, ti: usize, op: &'static Op, f: impl FnOnce()) -> bool {
    let m = me() as usize;
    let (t0, inv) = (now(), stamp());
    let nresp = rec().resp.len() - unsafe { RESP0 };
    if k().trace {
        k().tlog(format!("calls {}", show_op(op)));
    }
    let ok = may_panic(f).is_some();
    let r = OpRec { inv, ret: stamp(), t0, t1: now(), blocked: 0, nresp, failed: !ok };
    if k().trace {
        k().tlog(format!("{} {}", if ok { "returned from" } else { "panicked in" }, show_op(op)));
    }
    let _ = m;
    run_state().recs[pi][ti].push(r);
    ok
}
pub fn spawn_threads(io: &liso::InputOutput, pi: usize) -> Vec<std::thread::JoinHandle<()>> {
    let ph = &tplan().phases[pi];
    let mut hs = vec![];
    for (ti, ops) in ph.threads.iter().enumerate().skip(1) {
        let out = io.clone_output();
        hs.push(spawn_actor(&format!("app {}", ti), move || {
            for op in ops {
                if !attempt(pi, ti, op, || do_op(&out, op)) {
                    break;
                }
            }
        }));
    }
    hs
}
fn post_chunks(pi: usize, rc: &mut IRec) {
    let ph = &tplan().phases[pi];
    let t0 = now();
    let mut at = t0;
    for c in &ph.chunks {
        at += c.gap;
        k().post(at, Event::TtyInput(c.b.clone()), true);
    }
    rc.chunks.1 += ph.chunks.len();
    if let Some((a, d)) = ph.stall {
        k().post(t0 + a, Event::TtyStall(d), true);
    }
}
pub fn main_ops(io: &mut liso::InputOutput, pi: usize, reads: bool) {
    for (oi, op) in tplan().phases[pi].threads[0].iter().enumerate() {
        match op {
            Op::Read(kind) => {
                let mut dead = false;
                attempt(pi, 0, op, || {
                    if reads {
                        dead = do_read(io, kind) == Some(Resp::Dead)
                    }
                });
                if dead {
                    complain(format!("read {:?} returned Dead although nothing had failed", kind));
                }
            }
            Op::Swap(h) => {
                let new = make_history(h);
                let mut old = vec![];
                attempt(pi, 0, op, || {
                    let o = io.swap_history(new);
                    old = o.get_lines().to_vec();
                });
                run_state().swaps[pi].push((0, oi, old));
            }
            Op::Peek => {
                let mut old = vec![];
                attempt(pi, 0, op, || old = io.read_history().get_lines().to_vec());
                run_state().swaps[pi].push((0, oi, old));
            }
            op => {
                attempt(pi, 0, op, || do_op(io, op));
            }
        }
    }
}
/// everything that can be seen at this moment
fn snapshot(rc: &IRec) -> Obs {
    let kk = k();
    Obs { vt: kk.tty.vt.clone(), time: kk.now, resp: rec().resp[rc.resp0..].to_vec(), calls: rec().calls[rc.calls0..].to_vec(), hist: None, bells: kk.tty.vt.bells }
}
pub fn same_termios(a: &libc::termios, b: &libc::termios) -> bool {
    a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && a.c_cc == b.c_cc
}
/// shuts down; what was observed at the very moment the call returned
pub fn shut_down(io: liso::InputOutput, how: How, rc: &mut IRec) -> (u64, Option<String>) {
    rc.inv = stamp();
    let t0 = now();
    if k().trace {
        k().tlog(format!("shuts down: {:?}", how));
    }
    fn after(rc: &mut IRec, t0: u64) -> (u64, Option<String>) {
        rc.ret = stamp();
        let t = now() - t0;
        rc.obs = Some(snapshot(rc));
        let bad = if k().tty.hung || same_termios(&k().tty.termios, &k().tty.orig) { None } else { Some("the terminal was not in its original mode".to_string()) };
        if k().trace {
            k().tlog("shutdown has returned".into());
        }
        (t, bad)
    }
    match how {
        How::Drop => {
            drop(io);
            after(rc, t0)
        }
        How::BlockingDie => {
            io.blocking_die();
            after(rc, t0)
        }
        How::Die => {
            block_on(io.die());
            after(rc, t0)
        }
        How::TaskDrop => {
            let rt = runtime();
            rt.block_on(async { drop(io) });
            after(rc, t0)
        }
        How::TaskBlockingDie => {
            let rt = runtime();
            rt.block_on(async { io.blocking_die() });
            after(rc, t0)
        }
        How::TaskDie => {
            let rt = runtime();
            rt.block_on(io.die());
            after(rc, t0)
        }
        How::DieCancelled(n) => {
            poll_some(io.die(), n);
            after(rc, t0)
        }
        How::Unwind => {
            // the panic message and what the hook does to the terminal are
            // not under test here: only that the instance ends while unwinding
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _io = io;
                std::panic::resume_unwind(Box::new("expected"));
            }));
            after(rc, t0)
        }
        How::Elsewhere => {
            let rcp = rc as *mut IRec as usize;
            spawn_actor("app dropper", move || {
                drop(io);
                after(unsafe { &mut *(rcp as *mut IRec) }, t0)
            })
            .join()
            .unwrap()
        }
    }
}
pub struct Before {
    fds: Vec<Option<usize>>,
    sigs: Vec<(usize, i32)>,
}
pub fn before() -> Before {
    Before { fds: k().fds.clone(), sigs: k().sig.to_vec() }
}
/// the instance has ended: does the process have everything back?
pub fn check_after(b: &Before, out: &liso::OutputOnly, readers: usize, n: usize, hung: bool) {
    let app = me();
    let hook = probe_hook();
    if !hook {
        complain("after the end the panic hook is not the one that was installed before".into());
    }
    if may_panic(|| out.bell()).is_some() {
        complain("a handle of an instance that has ended took a request without panicking".into());
    }
    settle(60 * MS);
    let kk = k();
    if kk.tty.readers_log[readers..].iter().any(|x| x.0 != app) {
        complain("after the end Liso still consumed input from the terminal".into());
    }
    let trim = |v: &[Option<usize>]| -> Vec<Option<usize>> {
        let mut v = v.to_vec();
        while v.last() == Some(&None) {
            v.pop();
        }
        v
    };
    let (x, y) = (trim(&b.fds), trim(&kk.fds));
    if x != y {
        complain(format!("file descriptors before: {:?}, after the end: {:?}", x, y));
    }
    for s in 1..65 {
        if kk.sig[s].0 != b.sigs[s].0 {
            complain(format!("the handler of signal {} is not the one that was installed before", s));
        }
    }
    if hung {
        return;
    }
    kk.tty.inq.clear();
    kk.tty.line.clear();
    let want = format!("probe {}\n", n);
    k().post(now() + MS, Event::TtyInput(format!("probe {}\r", n).into_bytes()), true);
    let r0 = kk.tty.readers_log.len();
    let mut got = String::new();
    let r = std::io::stdin().read_line(&mut got);
    if r.is_err() || !got.ends_with(&want) {
        complain(format!("after the end the program read {:?} {:?} from stdin instead of {:?}", r.map_err(|e| e.to_string()), got, want));
    }
    if k().tty.readers_log[r0..].iter().any(|x| x.0 != app) {
        complain("after the end Liso still consumed input from the terminal".into());
    }
}

// --------------------------------------------------------------- P09: shutdown
pub fn execute_shutdown() {
    let p = plan();
    let b = tplan();
    k().tty.termios.c_lflag &= !libc::ECHO;
    k().tty.orig = k().tty.termios;
    k().clockjump = b.clockjump;
    for (pi, inst) in p.insts.iter().enumerate() {
        let ph = &b.phases[pi];
        k().tty.inq.clear();
        k().tty.line.clear();
        let bf = before();
        // (every input so far has arrived)
        let sent = k().input_stamps.len();
        let mut rc = IRec { row0: k().tty.vt.abs_row(), ep0: k().tty.vt.epochs.len(), bells0: k().tty.vt.bells, resp0: rec().resp.len(), calls0: rec().calls.len(), t0: now(), chunks: (sent, sent), ..Default::default() };
        set_resp0(rc.resp0);
        let r = run_state();
        r.recs.push(vec![vec![]; ph.threads.len()]);
        r.swaps.push(vec![]);
        let mut io = liso::InputOutput::new();
        // keys typed while the mode changes belong to nobody in particular
        if !ph.chunks.is_empty() || ph.stall.is_some() {
            settle(60 * MS);
        }
        post_chunks(pi, &mut rc);
        let hs = spawn_threads(&io, pi);
        main_ops(&mut io, pi, true);
        let mut hs = Some(hs);
        if inst.join {
            for h in hs.take().unwrap() {
                let _ = h.join();
            }
        }
        if inst.calm && inst.join {
            settle(60 * MS);
        }
        let out = io.clone_output();
        let mut fl = None;
        static STOP: AtomicBool = AtomicBool::new(false);
        if inst.flood {
            let o = out.clone();
            STOP.store(false, Ordering::SeqCst);
            fl = Some(spawn_actor("app flood", move || {
                let mut n = 0;
                while !STOP.load(Ordering::Relaxed) {
                    n += 1;
                    let l = format!("f{}", n);
                    let (t0, inv) = (now(), stamp());
                    let ok = may_panic(|| o.println(l.as_str())).is_some();
                    let r = OpRec { inv, ret: stamp(), t0, t1: now(), blocked: 0, nresp: 0, failed: !ok };
                    if !ok {
                        break;
                    }
                    lrun().flood.push((l, r));
                }
            }));
        }
        let (took, bad) = shut_down(io, inst.how, &mut rc);
        let readers = k().tty.readers_log.len();
        STOP.store(true, Ordering::SeqCst);
        if let Some(m) = bad {
            complain(format!("when {:?} returned {}", inst.how, m));
        }
        // the terminal is the program's again, at once
        let row = k().tty.vt.abs_row();
        let word = format!("d{}", pi);
        println!("{}", word);
        if let Some(h) = hs.take() {
            for h in h {
                let _ = h.join();
            }
        }
        if let Some(h) = fl {
            let _ = h.join();
        }
        let naps: u64 = ph.threads.iter().flatten().map(|o| if let Op::Suspend { nap, .. } = o { *nap } else { 0 }).sum();
        let stops = ph.chunks.iter().flat_map(|c| &c.b).filter(|c| **c == 0x1a).count() as u64;
        let bound = 150 * MS + naps + ph.stall.map_or(0, |s| s.1) + stops * b.clockjump;
        if b.kn.p_stall == 0.0 && took > bound {
            complain(format!("{:?} took {}ms", inst.how, took / MS));
        }
        check_after(&bf, &out, readers, pi, false);
        let vt = &k().tty.vt;
        if inst.how != How::Elsewhere {
            // (another thread ran in between)
            let e = vt.epochs.last().filter(|_| vt.epochs.len() > rc.ep0 + 1000);
            let _ = e;
            let t = vt.rows.get(row).map(|r| row_text(r)).unwrap_or_default();
            if t != word {
                complain(format!("a line printed by the program after the end reads {:?} instead of {:?}", t, word));
            }
        }
        let f = std::mem::take(&mut lrun().flood);
        lrun().floods.push(f);
        lrun().inst.push(rc);
    }
    lrun().done = true;
}
fn keys_of(p: &crate::tty::Plan, phases: &[usize], lo: usize, ret: u64) -> Vec<MItem> {
    let mut chunks = vec![];
    for pi in phases {
        for (i, c) in p.phases[*pi].chunks.iter().enumerate() {
            chunks.push(Chunk { gap: if i == 0 { c.gap + 60 * MS } else { c.gap }, b: c.b.clone() });
        }
    }
    let mut v = vec![];
    for (key, c) in decode(&chunks, p.tc.cfg.vt52) {
        // input that never arrived was never typed
        let Some(inv) = k().input_stamps.get(lo + c).copied() else { break };
        v.push(MItem { k: MK::Key(key), inv, ret, min_resp: 0, dbg: format!("key {:?}", key) });
    }
    v
}
fn explain_shutdown(a: Aspects, visited: &mut u64) -> Result<(), Result<String, String>> {
    let (p, b, l) = (plan(), tplan(), lrun());
    for (pi, rc) in l.inst.iter().enumerate() {
        let obs = rc.obs.as_ref().unwrap();
        let (mut src, swaps) = app_items(b, run_state(), pi, obs.time);
        src[0].push(MItem { k: MK::Die, inv: rc.inv, ret: rc.ret, min_resp: obs.resp.len(), dbg: format!("{:?}", p.insts[pi].how) });
        src.push(keys_of(b, &[pi], rc.chunks.0, u64::MAX));
        src.push(swaps);
        let fl = l.floods[pi].iter().map(|(t, r)| MItem { k: MK::Out(std::sync::Arc::new(plain(t))), inv: r.inv, ret: r.ret, min_resp: 0, dbg: format!("flood {}", t) }).collect();
        src.push(fl);
        let mut s = S::new(rc.row0);
        s.ep = rc.ep0;
        s.bells = rc.bells0;
        let mut ctx = Ctx { cfg: b.tc.cfg, obs, a, comps: &b.comps, t0: rc.t0, fail: (0, String::new()), visited: 0, cap: 400_000, overflow: false, tall: false, loose: true };
        if a.out && !obs.vt.odd.is_empty() {
            return Err(Ok(format!("instance {}: the terminal received something no terminal understands: {:?}", pi, obs.vt.odd)));
        }
        let next = ctx.explain(&[s], &src);
        *visited += ctx.visited as u64;
        if next.is_empty() {
            if ctx.overflow {
                return Err(Err("too many interleavings to decide".into()));
            }
            return Err(Ok(format!("instance {}: {}", pi, ctx.fail.1)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------ P10: failures
fn arm(f: &Fault) {
    let kk = k();
    match f {
        Fault::Write { nth, errno, count } | Fault::SetupWrite { nth, errno, count } => kk.tty.err_at = Some((kk.tty.wcount + nth, *errno, *count)),
        Fault::Hang { after, errno } | Fault::SetupHang { after, errno } => {
            kk.tty.hang_read_errno = *errno;
            kk.post(now() + after, Event::TtyHang, false);
        }
        Fault::ReadErr { after } => kk.post(now() + after, Event::TtyReadErr, false),
        Fault::Mode { nth } | Fault::SetupMode { nth } => kk.tty.tcset_err_at = Some(kk.tty.tcset_count + nth),
        Fault::SetupThread { nth } => kk.thread_err_at = Some(kk.thread_count + nth),
        Fault::None => {}
    }
}
fn disarm() {
    let kk = k();
    kk.tty.err_at = None;
    kk.tty.write_err_left = 0;
    kk.tty.read_err = false;
    kk.tty.tcset_err_at = None;
    kk.thread_err_at = None;
    kk.ev.retain(|_, (e, _)| !matches!(e, Event::TtyHang | Event::TtyReadErr));
}
pub fn execute_failure() {
    let p = plan();
    let b = tplan();
    k().tty.termios.c_lflag &= !libc::ECHO;
    k().tty.orig = k().tty.termios;
    k().clockjump = b.clockjump;
    let sent = 0;
    for _ in 0..b.phases.len() {
        let r = run_state();
        let pi = r.recs.len();
        r.recs.push(vec![vec![]; b.phases[pi].threads.len()]);
        r.swaps.push(vec![]);
    }
    for (ii, inst) in p.insts.iter().enumerate() {
        k().tty.inq.clear();
        k().tty.line.clear();
        let bf = before();
        let (pa, pb) = (2 * ii, 2 * ii + 1);
        let mut rc = IRec { resp0: rec().resp.len(), calls0: rec().calls.len(), t0: now(), chunks: (sent, sent), ..Default::default() };
        k().tty.failed_at = None;
        if inst.fault.setup() {
            rc.arm = stamp();
            arm(&inst.fault);
        }
        let mut io = liso::InputOutput::new();
        let out = io.clone_output();
        if !inst.fault.setup() {
            settle(60 * MS);
            post_chunks(pa, &mut rc);
            let hs = spawn_threads(&io, pa);
            main_ops(&mut io, pa, true);
            for h in hs {
                let _ = h.join();
            }
            settle(60 * MS);
            rc.chunks_a = rc.chunks.1 - rc.chunks.0;
            rc.arm = stamp();
            arm(&inst.fault);
        }
        let mut hs = vec![];
        if pb < b.phases.len() {
            if !inst.fault.setup() {
                post_chunks(pb, &mut rc);
            }
            hs = spawn_threads(&io, pb);
            main_ops(&mut io, pb, false);
        }
        // if nothing else fails, the line is hung up in the end
        k().post(now() + 20_000 * MS, Event::TtyHang, false);
        let mut n = 0;
        let mut first = None;
        let t0 = now();
        loop {
            let kind = p.reads.get(n).cloned().unwrap_or(RK::Blocking);
            n += 1;
            if do_read(&mut io, &kind) == Some(Resp::Dead) {
                first = Some(kind);
                break;
            }
            if n > 400 {
                break;
            }
        }
        if first.is_none() {
            complain("no end of responses".into());
        }
        rc.dead_at = stamp();
        let phs = &b.phases[pa..(pb + 1).min(b.phases.len())];
        let naps: u64 = phs.iter().flat_map(|p| &p.threads).flatten().map(|o| if let Op::Suspend { nap, .. } = o { *nap } else { 0 }).sum();
        let stops = phs.iter().flat_map(|p| &p.chunks).flat_map(|c| &c.b).filter(|c| **c == 0x1a).count() as u64;
        let bound = 150 * MS + naps + phs.iter().map(|p| p.stall.map_or(0, |s| s.1)).sum::<u64>() + stops * b.clockjump;
        match k().tty.failed_at {
            Some(t) if b.kn.p_stall == 0.0 && now() > t.max(t0) + bound => complain(format!("the terminal failed at {}ms but the program read Dead only at {}ms", (t - T0) / MS, (now() - T0) / MS)),
            _ => {}
        }
        // the fault and what it does must not be the end of the program
        let kinds = |i: u32| match i % 8 {
            0 => RK::Blocking,
            1 => RK::Try,
            2 => RK::Timeout(1000),
            3 => RK::Deadline(1000),
            4 => RK::Cancel(1),
            5 => RK::Tokio(None),
            6 => RK::Longest,
            _ => RK::Async,
        };
        for i in 0..inst.dead_reads {
            let kind = kinds(i + n as u32);
            let t0 = now();
            let g = do_read(&mut io, &kind);
            if g != Some(Resp::Dead) {
                complain(format!("after Dead, read {:?} returned {:?}", kind, g));
            }
            if b.kn.p_stall == 0.0 && now() - t0 > 15 * MS {
                complain(format!("after Dead, read {:?} took {}us", kind, (now() - t0) / 1000));
            }
        }
        if inst.dead_reads == 7 && inst.calm {
            // a program that ignores it is stopped eventually
            let mut stopped = false;
            for _ in 0..1000 {
                if may_panic(|| do_read(&mut io, &kinds(inst.stuck))).is_none() {
                    stopped = true;
                    break;
                }
            }
            if !stopped {
                complain(format!("a program that ignores Dead can go on reading it for ever with {:?}", kinds(inst.stuck)));
            }
        }
        let t0 = now();
        shut_down_dead(io, inst.how);
        if b.kn.p_stall == 0.0 && now() - t0 > 100 * MS {
            complain(format!("after Dead, {:?} took {}ms", inst.how, (now() - t0) / MS));
        }
        let readers = k().tty.readers_log.len();
        for h in hs {
            let _ = h.join();
        }
        disarm();
        let hung = k().tty.hung;
        rc.obs = Some(snapshot(&rc));
        if !hung && !same_termios(&k().tty.termios, &k().tty.orig) {
            complain(format!("the terminal was not put back into its original mode after {:?}", inst.fault));
        }
        check_after(&bf, &out, readers, ii, hung);
        lrun().inst.push(rc);
        if hung {
            break;
        }
        // the program starts afresh
        let _ = std::io::Write::flush(&mut std::io::stdout());
        let c = &b.tc.cfg;
        k().tty.vt = Vt::new(if c.vt52 { Kind::Vt52 } else { Kind::Ansi }, c.w, c.h, b.tc.bce, c.def(), c.ncolors);
        k().tty.stalled = false;
        let mut io = liso::InputOutput::new();
        settle(60 * MS);
        if may_panic(|| io.println("#ok")).is_none() {
            complain("the next instance was dead from the start".into());
        } else {
            settle(60 * MS);
            if !k().tty.vt.rows.iter().any(|r| row_text(r).contains("#ok")) {
                complain("the next instance did not print".into());
            }
            k().post(now(), Event::TtyInput(b"yes\r".to_vec()), true);
            let g = io.read_timeout(as_dur(2000 * MS)).map(conv);
            if g != Some(Resp::Input("yes".into())) {
                complain(format!("the next instance answered {:?} to a line of input", g));
            }
        }
        drop(io);
        if !same_termios(&k().tty.termios, &k().tty.orig) {
            complain("the terminal was not put back into its original mode by the next instance".into());
        }
        settle(60 * MS);
        // stamps of this instance are needed for the evaluation
        break;
    }
    lrun().done = true;
}
fn shut_down_dead(io: liso::InputOutput, how: How) {
    let mut rc = IRec::default();
    shut_down(io, how, &mut rc);
}
fn explain_failure(a: Aspects, visited: &mut u64) -> Result<(), Result<String, String>> {
    let (b, l) = (tplan(), lrun());
    for (ii, rc) in l.inst.iter().enumerate() {
        let obs = rc.obs.as_ref().unwrap();
        let (pa, pb) = (2 * ii, 2 * ii + 1);
        let setup = plan().insts[ii].fault.setup();
        let mut src: Vec<Vec<MItem>> = vec![];
        if !setup {
            let (s, w) = app_items(b, run_state(), pa, obs.time);
            src.extend(s);
            src.push(w);
        }
        if pb < b.phases.len() {
            let (s, w) = app_items(b, run_state(), pb, obs.time);
            src.extend(s);
            src.push(w);
        }
        if !setup {
            let mut phs = vec![pa];
            if pb < b.phases.len() {
                phs.push(pb);
            }
            let mut keys = keys_of(b, &phs, rc.chunks.0, u64::MAX);
            // what came before the failure was dealt with before it
            for x in &mut keys {
                if x.inv < rc.arm {
                    x.ret = rc.arm - 1;
                }
            }
            src.push(keys);
        }
        src.push(vec![MItem { k: MK::Die, inv: rc.arm, ret: rc.dead_at, min_resp: 0, dbg: "failure".into() }]);
        let mut ctx = Ctx { cfg: b.tc.cfg, obs, a: Aspects { resp: a.resp, hist: a.hist, ..NONE }, comps: &b.comps, t0: rc.t0, fail: (0, String::new()), visited: 0, cap: 400_000, overflow: false, tall: false, loose: false };
        let next = ctx.explain(&[S::new(0)], &src);
        *visited += ctx.visited as u64;
        if next.is_empty() {
            if ctx.overflow {
                return Err(Err("too many interleavings to decide".into()));
            }
            return Err(Ok(format!("instance {}: {}", ii, ctx.fail.1)));
        }
    }
    Ok(())
}

// --------------------------------------------------------------- evaluation
pub fn judge(failure: bool, abort: Option<(String, String)>) -> crate::tty::Verdict {
    let mut visited = 0;
    let mut v = vec![];
    if let Some(x) = harness_panic() {
        return crate::tty::Verdict { viol: vec![], inconclusive: Some(x), visited };
    }
    v.extend(liso_panics());
    if let Some((kind, m)) = &abort {
        if kind == "harness" {
            return crate::tty::Verdict { viol: vec![], inconclusive: Some(m.clone()), visited };
        }
        v.push(format!("{}: {}", kind, m));
    }
    v.extend(lrun().viol.iter().cloned());
    if k().bad_closes > 0 {
        v.push(format!("{} file descriptors were closed that were not open", k().bad_closes));
    }
    // a call may fail only because the instance has ended
    for (ii, rc) in lrun().inst.iter().enumerate() {
        let phs = if failure { vec![2 * ii, 2 * ii + 1] } else { vec![ii] };
        for pi in phs {
            for (ti, ops) in run_state().recs.get(pi).cloned().unwrap_or_default().iter().enumerate() {
                for (oi, r) in ops.iter().enumerate() {
                    let until = if failure { rc.arm } else { rc.inv };
                    if r.failed && r.ret < until {
                        v.push(format!("{} panicked although the instance was alive", show_op(&tplan().phases[pi].threads[ti][oi])));
                    }
                }
            }
        }
    }
    if v.is_empty() && abort.is_none() && !lrun().done {
        return crate::tty::Verdict { viol: vec![], inconclusive: Some("the run did not finish".into()), visited };
    }
    let mut inc = None;
    if v.is_empty() && abort.is_none() {
        let ex: fn(Aspects, &mut u64) -> Result<(), Result<String, String>> = if failure { explain_failure } else { explain_shutdown };
        if let Err(e) = ex(ALL, &mut visited) {
            match e {
                Err(why) => inc = Some(why),
                Ok(first) => match ex(tplan().mix.a, &mut visited) {
                    Ok(()) => inc = Some(format!("only another property is affected: {}", first)),
                    Err(Err(why)) => inc = Some(why),
                    Err(Ok(m)) => v.push(m),
                },
            }
        }
    }
    crate::tty::Verdict { viol: v, inconclusive: inc, visited }
}
