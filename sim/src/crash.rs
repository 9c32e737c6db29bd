//! The program panics while Liso is active (P22): in its own threads, in a
//! suspended closure, in a completor, in an autosave handler.
use crate::exec::*;
use crate::kernel::*;
use crate::life::{before, check_after, main_ops, same_termios, shut_down, spawn_threads, How, IRec};
use crate::model::Resp;
use crate::rng::Tape;
use crate::tty::{plan as tplan, run_state, Mix, Op};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Where {
    /// the thread that owns the `InputOutput`, which is dropped by that
    Owner,
    /// another thread; the owner shuts down afterwards
    Thread,
    Closure,
    Completor,
    Autosave,
}
impl Where {
    /// in Liso's own thread
    fn inside(self) -> bool {
        !matches!(self, Where::Owner | Where::Thread)
    }
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub at: Where,
    pub join: bool,
    pub calm: bool,
    pub customs: u32,
    /// a line is typed before
    pub typed: bool,
    /// an unfinished line is there, the cursor not at its end
    pub pending: bool,
    pub how: How,
    /// the reader waits already
    pub late: u64,
}
pub struct Plan {
    pub insts: Vec<Inst>,
    pub reads: Vec<RK>,
}
/// the terminal when the panic is reported
#[derive(Clone, Debug)]
struct Seen {
    at: u64,
    raw: bool,
    visible: bool,
    wrap: bool,
    attr_default: bool,
    below_blank: bool,
}
#[derive(Default)]
struct CRun {
    seen: Vec<Seen>,
    viol: Vec<String>,
    done: bool,
}
static mut PLAN: Option<&'static Plan> = None;
static mut RUN: Option<&'static mut CRun> = None;
fn plan() -> &'static Plan {
    unsafe { PLAN.unwrap() }
}
#[allow(static_mut_refs)]
fn crun() -> &'static mut CRun {
    unsafe { RUN.as_mut().unwrap() }
}
#[allow(static_mut_refs)]
pub fn is_set() -> bool {
    unsafe { PLAN.is_some() }
}
pub fn complain(s: String) {
    if k().trace {
        k().tlog(format!("!! {}", s));
    }
    crun().viol.push(s);
}
const MSG: &str = "expected crash";
/// called by the application's panic hook (the one in effect while Liso is
/// suspended; otherwise the standard one prints the message)
pub fn on_panic(m: &str) {
    if m == MSG && is_set() {
        observe("the application's panic hook runs");
    }
}
/// called with what is written to the standard error output
pub fn on_message(m: &str) {
    if is_set() && m.contains(MSG) {
        observe("the panic message is printed");
    }
}
fn observe(what: &str) {
    let t = &k().tty;
    let row = t.vt.abs_row();
    let s = Seen {
        at: k().now,
        raw: t.raw(),
        visible: t.vt.visible,
        wrap: t.vt.wrap,
        attr_default: t.vt.cur == tplan().tc.cfg.def(),
        below_blank: t.vt.rows[row..].iter().enumerate().all(|(i, r)| r.iter().enumerate().all(|(j, c)| (i == 0 && j < t.vt.cx) || c.ch == ' ')),
    };
    if k().trace {
        k().tlog(format!("{}: {:?}", what, s));
    }
    crun().seen.push(s);
}
fn crash() {
    if k().trace {
        k().tlog("the application panics".into());
    }
    panic!("{}", MSG)
}
struct Boom;
impl liso::Completor for Boom {
    fn complete(&mut self, _: &liso::Output, _: &str, _: usize, _: std::num::NonZeroU32) -> Option<liso::Completion> {
        crash();
        None
    }
}

pub fn gen(t: &mut Tape, prop: &str, m: &Mix) -> (crate::tty::Plan, Plan) {
    let mut base = crate::tty::gen(t, prop, m);
    base.echo_off = true;
    base.kn.max_steps = 300_000;
    for p in &mut base.phases {
        p.chunks.clear();
        for th in &mut p.threads {
            th.retain(|o| !matches!(o, Op::Read(_) | Op::Custom(..) | Op::SetComp(_) | Op::Swap(_)));
        }
    }
    let mut insts = vec![];
    for _ in 0..base.phases.len() {
        insts.push(t.span(|t| {
            let at = *t.pick(&[Where::Owner, Where::Closure, Where::Completor, Where::Thread, Where::Autosave]);
            let how = *t.pick(&[How::Drop, How::BlockingDie, How::Die, How::Elsewhere]);
            let join = !t.chance(0.25) || at == Where::Completor || at == Where::Autosave;
            Inst { at, join, calm: t.chance(0.6), customs: t.int(0, 4) as u32, typed: t.chance(0.4), pending: t.chance(0.5), how, late: *t.pick(&[0u64, 0, 20_000, 2 * MS]) }
        }));
    }
    let reads = t.list(12, 0.85, |t| match t.below(8) {
        0 => RK::Try,
        1 => RK::Timeout(*t.pick(&[1000u64, 50_000, 300_000])),
        2 => RK::Deadline(*t.pick(&[1000i64, 30_000, -1000])),
        3 => RK::Cancel(*t.pick(&[1u32, 2, 4])),
        4 => RK::Blocking,
        5 => RK::Tokio(*t.pick(&[None, Some(20_000u64)])),
        6 => RK::Longest,
        _ => RK::Async,
    });
    (base, Plan { insts, reads })
}
pub fn show() -> String {
    let mut s = tplan().show();
    for (i, x) in plan().insts.iter().enumerate() {
        s.push_str(&format!("instance {}: {:?}\n", i, x));
    }
    s.push_str(&format!("reads until the end: {:?}\n", plan().reads));
    s
}
pub fn start(b: crate::tty::Plan, p: Plan) {
    crate::tty::start(b);
    unsafe {
        PLAN = Some(Box::leak(Box::new(p)));
        RUN = Some(Box::leak(Box::default()));
    }
}
/// what must be so when the message is printed
fn look(n: usize, x: &Inst, quiet: bool) {
    let seen = &crun().seen;
    if seen.len() != n + 1 {
        complain(format!("the panic was reported {} times ({:?})", seen.len() as i64 - n as i64, x.at));
        return;
    }
    let s = seen[n].clone();
    let mut bad = vec![];
    if s.raw && quiet {
        bad.push("the terminal was still in raw mode")
    }
    if quiet {
        if !s.visible {
            bad.push("the cursor was hidden")
        }
        if !s.wrap {
            bad.push("line wrap was off")
        }
        if !s.attr_default {
            bad.push("attributes were not reset")
        }
        if !s.below_blank {
            bad.push("there was something where the message goes")
        }
    }
    if !bad.is_empty() {
        complain(format!("when the panic was reported ({:?}): {}", x.at, bad.join(", ")));
    }
}
pub fn execute() {
    let (p, b) = (plan(), tplan());
    k().tty.termios.c_lflag &= !libc::ECHO;
    k().tty.orig = k().tty.termios;
    for (pi, x) in p.insts.iter().enumerate() {
        let ph = &b.phases[pi];
        k().tty.inq.clear();
        k().tty.line.clear();
        let bf = before();
        let mut rc = IRec { row0: k().tty.vt.abs_row(), resp0: rec().resp.len(), ..Default::default() };
        crate::life::set_resp0(rc.resp0);
        let r = run_state();
        r.recs.push(vec![vec![]; ph.threads.len()]);
        r.swaps.push(vec![]);
        let mut io = liso::InputOutput::new();
        settle(60 * MS);
        if let Some((a, d)) = ph.stall {
            k().post(now() + a, Event::TtyStall(d), true);
        }
        let hs = spawn_threads(&io, pi);
        main_ops(&mut io, pi, true);
        let mut hs = Some(hs);
        if x.join {
            for h in hs.take().unwrap() {
                let _ = h.join();
            }
        }
        let calm = x.join && x.calm;
        let out = io.clone_output();
        let mut want: Vec<Resp> = vec![];
        for c in 0..x.customs {
            out.send_custom(c);
            want.push(Resp::Custom(c));
        }
        if x.typed || x.pending || matches!(x.at, Where::Completor | Where::Autosave) {
            io.prompt(">", x.join || x.at.inside(), true);
        }
        if x.typed && x.join {
            settle(60 * MS);
            k().post(now(), Event::TtyInput(b"ab\r".to_vec()), true);
            settle(60 * MS);
            want.push(Resp::Input("ab".into()));
        }
        if x.pending && x.join && !matches!(x.at, Where::Autosave) {
            settle(60 * MS);
            k().post(now(), Event::TtyInput(b"cdefgh\x02\x02\x02".to_vec()), true);
            settle(60 * MS);
        }
        if calm {
            settle(60 * MS);
        }
        let n = crun().seen.len();
        let naps: u64 = ph.threads.iter().flatten().map(|o| if let Op::Suspend { nap, .. } = o { *nap } else { 0 }).sum();
        let bound = 150 * MS + naps + ph.stall.map_or(0, |s| s.1);
        let timed = b.kn.p_stall == 0.0;
        match x.at {
            Where::Owner => {
                let t0 = now();
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let _io = io;
                    crash();
                }));
                if timed && now() - t0 > bound {
                    complain(format!("it took {}ms to unwind", (now() - t0) / MS));
                }
                look(n, x, calm);
            }
            Where::Thread => {
                let o = io.clone_output();
                let h = spawn_actor("app crash", move || {
                    let _o = o;
                    let _ = std::panic::catch_unwind(crash);
                });
                let _ = h.join();
                look(n, x, calm);
                let (took, bad) = shut_down(io, x.how, &mut rc);
                if timed && took > bound {
                    complain(format!("{:?} took {}ms", x.how, took / MS));
                }
                if let Some(m) = bad {
                    complain(format!("when {:?} returned {}", x.how, m));
                }
            }
            _ => {
                let t0 = now();
                match x.at {
                    Where::Closure => io.suspend_and_run(crash),
                    Where::Completor => {
                        io.set_completor(Some(Box::new(Boom)));
                        k().post(now() + x.late, Event::TtyInput(b"x\t".to_vec()), true);
                    }
                    _ => {
                        let mut h = liso::History::new();
                        let first = std::sync::atomic::AtomicBool::new(true);
                        h.set_autosave_handler(Some(Box::new(move |_| {
                            if first.swap(false, std::sync::atomic::Ordering::Relaxed) {
                                crash();
                            }
                            Ok(())
                        })));
                        h.set_autosave_interval(std::num::NonZeroUsize::new(1));
                        let _ = io.swap_history(h);
                        k().post(now() + x.late, Event::TtyInput(b"x\r".to_vec()), true);
                    }
                }
                // if the program never gets to know, that ends it
                k().post(now() + 20_000 * MS, Event::TtyHang, false);
                let mut i = 0;
                loop {
                    let kind = p.reads.get(i).cloned().unwrap_or(RK::Blocking);
                    i += 1;
                    if do_read(&mut io, &kind) == Some(Resp::Dead) {
                        break;
                    }
                    if i > 400 {
                        complain("no end of responses".into());
                        break;
                    }
                }
                k().ev.retain(|_, (e, _)| !matches!(e, Event::TtyHang));
                if timed && now() - t0 > bound + x.late + p.reads.iter().map(|_| 300 * MS).sum::<u64>() {
                    complain(format!("it took {}ms until the program read Dead", (now() - t0) / MS));
                }
                // (everything was queued before the panic)
                look(n, x, true);
                let got = rec().resp[rc.resp0..].to_vec();
                if got != want {
                    complain(format!("before Dead {:?} was read, but the responses were {:?}", got, want));
                }
                // (its thread may still be unwinding)
                settle(20 * MS);
                if timed && may_panic(|| io.println("too late")).is_some() {
                    complain("println did not panic although Liso was dead".into());
                }
                let t0 = now();
                drop(io);
                if timed && now() - t0 > 100 * MS {
                    complain(format!("after Dead, dropping took {}ms", (now() - t0) / MS));
                }
                if timed && may_panic(|| out.bell()).is_some() {
                    complain("a handle did not panic although Liso was dead".into());
                }
                #[cfg(not(feature = "noglobal"))]
                if may_panic(liso::output).is_some() {
                    complain("liso::output() did not panic after the end".into());
                }
            }
        }
        let readers = k().tty.readers_log.len();
        if let Some(h) = hs.take() {
            for h in h {
                let _ = h.join();
            }
        }
        let t = &k().tty;
        let mut bad = vec![];
        if !same_termios(&t.termios, &t.orig) {
            bad.push("the terminal is not in its original mode")
        }
        if !t.vt.visible {
            bad.push("the cursor is hidden")
        }
        if !t.vt.wrap {
            bad.push("line wrap is off")
        }
        if t.vt.cur != b.tc.cfg.def() {
            bad.push("attributes are not reset")
        }
        if !bad.is_empty() {
            complain(format!("after the end ({:?}): {}", x.at, bad.join(", ")));
        }
        if x.at.inside() {
            break;
        }
        check_after(&bf, &out, readers, pi, false);
    }
    crun().done = true;
}
pub fn judge(abort: Option<(String, String)>) -> crate::tty::Verdict {
    let mut v = vec![];
    if let Some(x) = harness_panic() {
        return crate::tty::Verdict { viol: vec![], inconclusive: Some(x), visited: 0 };
    }
    v.extend(liso_panics());
    if let Some((kind, m)) = &abort {
        if kind == "harness" {
            return crate::tty::Verdict { viol: vec![], inconclusive: Some(m.clone()), visited: 0 };
        }
        v.push(format!("{}: {}", kind, m));
    }
    v.extend(crun().viol.iter().cloned());
    let inc = if v.is_empty() && !crun().done { Some("the run did not finish".into()) } else { None };
    crate::tty::Verdict { viol: v, inconclusive: inc, visited: 0 }
}
