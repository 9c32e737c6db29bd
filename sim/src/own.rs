//! Ownership (P17): several threads try to create, use and shut down
//! instances at the same time.
use crate::exec::*;
use crate::gen::*;
use crate::kernel::*;
use crate::life::{shut_down, How, IRec};
use crate::rng::Tape;
use crate::vt::row_text;
#[cfg(not(feature = "noglobal"))]
use liso::liso;

#[derive(Clone, Debug)]
pub enum Op {
    New,
    /// ... but its thread can't be started
    NewErr,
    /// a line printed with a handle: the thread's own instance, or a clone of
    /// the one it last had
    Print,
    /// a line printed through liso::output() or the global macros
    Global(u8),
    Down(How),
    Sleep(u64),
}
pub struct Plan {
    pub tc: TermChoice,
    pub kn: Knobs,
    pub threads: Vec<Vec<Op>>,
    pub fault: Option<(u64, i32)>,
}
#[derive(Clone, Debug)]
pub enum Ev {
    New { inv: u64, ret: u64, ok: bool, err: bool },
    Down { inst: usize, inv: u64, ret: u64, how: How },
    /// tag, kind, times of getting the handle and of printing
    Line { tag: u32, inst: Option<usize>, inv: u64, got: u64, ret: u64, found: bool, ok: bool },
}
#[derive(Clone, Debug)]
struct Ins {
    inv: u64,
    ret: u64,
    di: u64,
    dr: u64,
}
#[derive(Default)]
pub struct Run {
    ins: Vec<Ins>,
    ev: Vec<(usize, Ev)>,
    tag: u32,
    viol: Vec<String>,
    done: bool,
}
static mut PLAN: Option<&'static Plan> = None;
static mut RUN: Option<&'static mut Run> = None;
fn plan() -> &'static Plan {
    unsafe { PLAN.unwrap() }
}
#[allow(static_mut_refs)]
fn run() -> &'static mut Run {
    unsafe { RUN.as_mut().unwrap() }
}

pub fn gen(t: &mut Tape) -> Plan {
    let mut tc = gen_term(t, 0.1, 0.0);
    tc.cfg.w = 80;
    tc.cfg.h = 60;
    let mut kn = gen_knobs(t, &KnobMix { stall: 0.1, edges: 0.6, reads: 0.2 });
    kn.max_steps = 200_000;
    let n = t.int(2, 4);
    let mut threads = vec![];
    for i in 0..n {
        threads.push(t.span(|t| {
            let mut has = false;
            t.list(if i == 0 { 8 } else { 6 }, 0.85, |t| {
                let x = has as u32;
                match t.weighted(&[if has { 2 } else { 10 }, 3, 5, 6 * x, 3]) {
                    0 if t.chance(0.06) => Op::NewErr,
                    0 => {
                        has = true;
                        Op::New
                    }
                    1 => Op::Print,
                    2 => Op::Global(t.below(3) as u8),
                    3 => {
                        has = false;
                        Op::Down(match t.weighted(&[6, 3, 2, 2, 2, 1, 1, 1, 1]) {
                            0 => How::Drop,
                            1 => How::BlockingDie,
                            2 => How::Die,
                            3 => How::DieCancelled(t.int(1, 3) as u32),
                            4 => How::Elsewhere,
                            6 => How::TaskDrop,
                            7 => How::TaskBlockingDie,
                            8 => How::TaskDie,
                            _ => How::Unwind,
                        })
                    }
                    _ => Op::Sleep(*t.pick(&[10_000u64, 1_000, 300_000, 2 * MS])),
                }
            })
        }));
    }
    let fault = if t.chance(0.08) { Some((1 + t.below(6) as u64, *t.pick(&[libc::EIO, libc::EPIPE]))) } else { None };
    Plan { tc, kn, threads, fault }
}
pub fn show() -> String {
    let p = plan();
    let mut s = format!("{:?}\nschedule: {:?}\n", p.tc.cfg, p.kn);
    for (i, t) in p.threads.iter().enumerate() {
        s.push_str(&format!("thread {}: {:?}\n", i, t));
    }
    if let Some(f) = p.fault {
        s.push_str(&format!("write {} to the terminal fails with errno {}\n", f.0, f.1));
    }
    for (i, e) in &run().ev {
        s.push_str(&format!("  thread {} {:?}\n", i, e));
    }
    s
}
pub fn start(p: Plan) {
    unsafe {
        PLAN = Some(Box::leak(Box::new(p)));
        RUN = Some(Box::leak(Box::default()));
    }
}
fn note(i: usize, e: Ev) {
    if k().trace {
        k().tlog(format!("{:?}", e));
    }
    run().ev.push((i, e));
}
fn line(i: usize, inst: Option<usize>, get: impl FnOnce() -> Option<liso::OutputOnly>, macros: u8) {
    let r = run();
    r.tag += 1;
    let tag = r.tag;
    let inv = stamp();
    let text = format!("<t{}>", tag);
    if macros > 0 {
        // the macros get the handle themselves
        #[cfg(not(feature = "noglobal"))]
        {
            let ok = may_panic(|| {
                if macros == 1 {
                    liso::println!(text.as_str())
                } else {
                    liso::wrapln!(text.as_str())
                }
            })
            .is_some();
            let ret = stamp();
            note(i, Ev::Line { tag, inst, inv, got: ret, ret, found: ok, ok });
        }
        return;
    }
    let o = get();
    let got = stamp();
    let found = o.is_some();
    let ok = o.map_or(false, |o| may_panic(|| o.println(text.as_str())).is_some());
    note(i, Ev::Line { tag, inst, inv, got, ret: stamp(), found, ok });
}
fn script(i: usize) {
    let mut own: Option<(usize, liso::InputOutput)> = None;
    let mut last: Option<(usize, liso::OutputOnly)> = None;
    let down = |own: &mut Option<(usize, liso::InputOutput)>, how: How| {
        if let Some((id, io)) = own.take() {
            let mut rc = IRec::default();
            run().ins[id].di = stamp();
            shut_down(io, how, &mut rc);
            run().ins[id].dr = stamp();
            let x = run().ins[id].clone();
            note(i, Ev::Down { inst: id, inv: x.di, ret: x.dr, how });
        }
    };
    for op in &plan().threads[i] {
        match op {
            Op::New | Op::NewErr => {
                let inv = stamp();
                k().th[me() as usize].spawn_err = matches!(op, Op::NewErr);
                let n = may_panic(|| liso::InputOutput::new());
                let ret = stamp();
                let err = matches!(op, Op::NewErr) && !std::mem::take(&mut k().th[me() as usize].spawn_err);
                note(i, Ev::New { inv, ret, ok: n.is_some(), err });
                if err && n.is_some() {
                    run().viol.push("an instance was created although its thread could not be started".into());
                }
                if let Some(n) = n {
                    run().ins.push(Ins { inv, ret, di: u64::MAX, dr: u64::MAX });
                    last = Some((run().ins.len() - 1, n.clone_output()));
                    if own.is_some() {
                        run().viol.push("a thread that had an instance could create another".into());
                        down(&mut own, How::Drop);
                    }
                    own = Some((run().ins.len() - 1, n));
                }
            }
            Op::Print => {
                if let Some((id, o)) = &last {
                    let o = o.clone();
                    line(i, Some(*id), || Some(o), 0);
                }
            }
            Op::Global(_m) => {
                #[cfg(not(feature = "noglobal"))]
                line(i, None, || may_panic(liso::output), *_m);
            }
            Op::Down(how) => down(&mut own, *how),
            Op::Sleep(n) => sleep(*n),
        }
    }
    down(&mut own, How::Drop);
}
pub fn execute() {
    k().tty.termios.c_lflag &= !libc::ECHO;
    k().tty.orig = k().tty.termios;
    let p = plan();
    if let Some((n, e)) = p.fault {
        k().tty.err_at = Some((k().tty.wcount + n, e, 1));
    }
    let hs: Vec<_> = (1..p.threads.len()).map(|i| spawn_actor(&format!("app {}", i), move || script(i))).collect();
    script(0);
    for h in hs {
        let _ = h.join();
    }
    settle(60 * MS);
    k().tty.err_at = None;
    // everything is over: one more must work normally
    let r = run();
    match may_panic(|| liso::InputOutput::new()) {
        None => r.viol.push("after all instances have ended a new one could not be created".into()),
        Some(mut io) => {
            settle(60 * MS);
            if !k().tty.raw() {
                r.viol.push("the last instance did not set up the terminal".into());
            }
            let dup = may_panic(|| liso::InputOutput::new());
            if dup.is_some() {
                r.viol.push("a second instance could be created".into());
            }
            settle(60 * MS);
            #[cfg(not(feature = "noglobal"))]
            if may_panic(|| liso::output().println("<last>")).is_none() {
                r.viol.push("liso::output() did not work".into());
            }
            #[cfg(feature = "noglobal")]
            let _ = may_panic(|| io.println("<last>"));
            settle(60 * MS);
            if shown("<last>") != 1 {
                r.viol.push("a failed attempt to create an instance disturbed the live one: it no longer prints".into());
            }
            // the panic has put the terminal into its original mode
            k().post(now(), Event::TtyInput(b"yes\r".to_vec()), true);
            if io.read_timeout(std::time::Duration::from_secs(2)).is_none() {
                r.viol.push("a failed attempt to create an instance disturbed the live one: it no longer reads input".into());
            }
            io.blocking_die();
        }
    }
    settle(60 * MS);
    #[cfg(not(feature = "noglobal"))]
    if may_panic(liso::output).is_some() {
        r.viol.push("liso::output() did not panic although there is no instance".into());
    }
    let left = k().live_threads("Liso raw");
    if !left.is_empty() {
        r.viol.push("a thread of Liso still reads input although there is no instance".into());
    }
    r.done = true;
}
fn shown(t: &str) -> usize {
    k().tty.vt.rows.iter().map(|r| row_text(r).matches(t).count()).sum()
}
pub fn judge(abort: Option<(String, String)>) -> crate::tty::Verdict {
    let r = run();
    let mut inc = harness_panic();
    let mut v = liso_panics();
    if let Some((kind, m)) = &abort {
        if kind == "harness" {
            inc = Some(m.clone());
        } else {
            v.push(format!("{}: {}", kind, m));
        }
    }
    v.extend(r.viol.iter().cloned());
    if inc.is_some() {
        return crate::tty::Verdict { viol: vec![], inconclusive: inc, visited: 0 };
    }
    if v.is_empty() && !r.done {
        return crate::tty::Verdict { viol: vec![], inconclusive: Some("the run did not finish".into()), visited: 0 };
    }
    let ins = &r.ins;
    let fault = plan().fault.is_some();
    // two instances, both certainly alive
    for (a, x) in ins.iter().enumerate() {
        for (b, y) in ins.iter().enumerate().skip(a + 1) {
            if x.ret.max(y.ret) < x.di.min(y.di) {
                v.push(format!("instances {} and {} were alive at the same time", a, b));
            }
            // one was created while the other's shutdown had not restored the
            // terminal yet
            let (x, y, a, b) = if x.inv < y.inv { (x, y, a, b) } else { (y, x, b, a) };
            let cooked = k().tty.tcset_log.iter().find(|c| c.0 > x.ret && !c.1).map(|c| c.0);
            if !fault && y.inv > x.ret && cooked.map_or(false, |c| y.ret < c && c < x.dr) {
                v.push(format!("instance {} was created before instance {} had given the terminal back", b, a));
            }
        }
    }
    let mut panicked: Vec<(u64, u64)> = vec![];
    for (i, e) in &r.ev {
        match e {
            Ev::New { inv, ret, ok: false, err } => {
                panicked.push((*inv, *ret));
                // (another attempt that came to nothing may have been in the way)
                let vain = r.ev.iter().any(|x| matches!(&x.1, Ev::New { inv: i2, ret: r2, err: true, .. } if i2 <= ret && r2 >= inv));
                if !err && !vain && !ins.iter().any(|x| x.inv <= *ret && x.dr >= *inv) {
                    v.push(format!("thread {} could not create an instance although there was none", i));
                }
            }
            Ev::New { .. } => {}
            Ev::Line { inst, inv, got, ret, found, ok, tag } => {
                if !ok {
                    panicked.push((*inv, *ret));
                }
                let overlap: Vec<&Ins> = ins.iter().filter(|x| x.inv <= *ret && x.dr >= *inv).collect();
                if inst.is_none() {
                    if *found && !ins.iter().any(|x| x.inv <= *got && x.dr >= *inv) {
                        v.push(format!("thread {} got a handle for line {} although there was no instance", i, tag));
                    }
                    if !*found && !fault && ins.iter().any(|x| x.ret < *inv && *got < x.di) {
                        v.push(format!("thread {} got no handle for line {} although an instance was alive", i, tag));
                    }
                }
                // printing with a handle works for as long as its instance lives
                let of = match inst {
                    Some(id) => Some(&ins[*id]),
                    None if overlap.len() == 1 => Some(overlap[0]),
                    None => None,
                };
                if let Some(x) = of {
                    if *found && !*ok && *ret < x.di && x.ret < *inv && !fault {
                        v.push(format!("line {} could not be printed although its instance was alive", tag));
                    }
                    if *ok && *inv > x.dr {
                        v.push(format!("line {} could be printed although its instance had ended", tag));
                    }
                }
            }
            Ev::Down { .. } => {}
        }
    }
    for (_, e) in &r.ev {
        let Ev::Line { tag, inst, inv, ret, ok, .. } = e else { continue };
        let n = shown(&format!("<t{}>", tag));
        if n > 1 || (n > 0 && !*ok) {
            v.push(format!("line {} was printed {} times", tag, n));
        }
        let overlap: Vec<&Ins> = ins.iter().filter(|x| x.inv <= *ret && x.dr >= *inv).collect();
        let x = match inst {
            Some(id) => &ins[*id],
            None if overlap.len() == 1 => overlap[0],
            None => continue,
        };
        // (a panic writes to the terminal without asking)
        let calm = !panicked.iter().any(|p| p.0 <= x.dr && p.1 >= x.inv);
        if *ok && n == 0 && *ret < x.di && calm && !fault {
            v.push(format!("line {} never appeared", tag));
        }
    }
    crate::tty::Verdict { viol: v, inconclusive: None, visited: 0 }
}
