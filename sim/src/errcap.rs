//! Stderr capture (P18) around the end of instances: what is written to
//! stderr before, while and after an instance ends appears exactly once, and
//! stderr is the terminal again afterwards.
use crate::exec::*;
use crate::gen::*;
use crate::kernel::*;
use crate::life::{before, check_after, shut_down, How, IRec};
use crate::rng::Tape;
use crate::tty::write_err;
use crate::vt::row_text;
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub enum W {
    Err(String),
    Sleep(u64),
    /// (main thread only)
    Print(u32),
    Status(bool),
    /// a suspend_and_run closure that writes to stderr
    Susp(String),
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub main: Vec<W>,
    /// other threads; they go on during and after the end
    pub others: Vec<Vec<W>>,
    pub calm: bool,
    pub how: How,
    pub stall: Option<(u64, u64)>,
    /// setting up the terminal fails
    pub setup: bool,
    /// so that stderr can't be captured: this pipe, dup or dup2 fails
    /// (or, with 0, the thread can't be started)
    pub fdop: Option<(u64, i32)>,
}
pub struct Plan {
    /// 0: the usual; 1: stderr is not the terminal; 2: pipe mode
    pub mode: u32,
    pub tc: TermChoice,
    pub kn: Knobs,
    pub insts: Vec<Inst>,
}
#[derive(Default)]
pub struct Run {
    viol: Vec<String>,
    done: bool,
}
static mut PLAN: Option<&'static Plan> = None;
static mut RUN: Option<&'static mut Run> = None;
fn plan() -> &'static Plan {
    unsafe { PLAN.unwrap() }
}
#[allow(static_mut_refs)]
fn run() -> &'static mut Run {
    unsafe { RUN.as_mut().unwrap() }
}
pub fn start(p: Plan) {
    unsafe {
        PLAN = Some(Box::leak(Box::new(p)));
        RUN = Some(Box::leak(Box::default()));
    }
}
fn complain(s: String) {
    if k().trace {
        k().tlog(format!("!! {}", s));
    }
    run().viol.push(s);
}
pub fn gen(t: &mut Tape) -> Plan {
    let mut tc = gen_term(t, 0.1, 0.0);
    tc.cfg.w = 80;
    tc.cfg.h = 60;
    let mut kn = gen_knobs(t, &KnobMix { stall: 0.1, edges: 0.6, reads: 0.3 });
    kn.max_steps = 200_000;
    let mut tag = 0;
    let mut err = |t: &mut Tape| -> String {
        let mut s = String::new();
        for _ in 0..*t.pick(&[1usize, 1, 2, 0, 4]) {
            tag += 1;
            s.push_str(&format!("<{}>", tag));
            let n = if t.chance(0.015) { *t.pick(&[4090usize, 5000, 9000]) } else { *t.pick(&[0usize, 3, 20, 70, 130, 124, 510, 1200]) };
            s.extend((0..n).map(|i| (b'a' + (i % 26) as u8) as char));
            s.push('\n');
        }
        if s.is_empty() || t.chance(0.3) {
            tag += 1;
            s.push_str(&format!("<{}>p", tag));
        }
        s
    };
    let mut prints = 0;
    let mut w = |t: &mut Tape, main: bool| -> W {
        let m = main as u32;
        match t.weighted(&[10, 6, 2 * m, 2 * m, m]) {
            0 => W::Err(err(t)),
            1 => W::Sleep(*t.pick(&[1_000u64, 10_000, 100_000, 300_000, 2 * MS])),
            2 => {
                prints += 1;
                W::Print(prints)
            }
            3 => W::Status(t.chance(0.7)),
            _ => W::Susp(err(t)),
        }
    };
    let n = t.int(1, 3);
    let mut insts = vec![];
    for _ in 0..n {
        insts.push(t.span(|t| {
            let main = t.list(6, 0.8, |t| w(t, true));
            let no = t.below(3) as usize;
            let others = (0..no).map(|_| t.list(8, 0.85, |t| w(t, false))).collect();
            let how = match t.weighted(&[6, 3, 2, 2, 2, 1, 1, 1, 1]) {
                0 => How::Drop,
                1 => How::BlockingDie,
                2 => How::Die,
                3 => How::DieCancelled(t.int(1, 3) as u32),
                4 => How::Elsewhere,
                6 => How::TaskDrop,
                7 => How::TaskBlockingDie,
                8 => How::TaskDie,
                _ => How::Unwind,
            };
            Inst { main, others, calm: t.chance(0.25), how, stall: if t.chance(0.1) { Some((*t.pick(&[0u64, 50_000, 1 * MS]), *t.pick(&[2 * MS, 50 * MS, 500 * MS]))) } else { None }, setup: t.chance(0.08), fdop: if t.chance(0.12) { Some((t.below(4) as u64, *t.pick(&[libc::EMFILE, libc::EINTR, libc::ENFILE]))) } else { None } }
        }));
    }
    let mode = t.weighted(&[87, 8, 5]) as u32;
    Plan { mode, tc, kn, insts }
}
pub fn show() -> String {
    let p = plan();
    let mut s = format!("{:?} {:?}\nschedule: {:?}\n", p.tc.cfg, p.tc.term, p.kn);
    s.push_str(["", "stderr is not the terminal\n", "Liso is in pipe mode\n"][p.mode as usize]);
    for (i, x) in p.insts.iter().enumerate() {
        s.push_str(&format!("instance {}:{}\n", i, if x.setup { " setting up the terminal fails" } else { "" }));
        for w in &x.main {
            s.push_str(&format!("  main: {:?}\n", w));
        }
        for (j, o) in x.others.iter().enumerate() {
            for w in o {
                s.push_str(&format!("  thread {}: {:?}\n", j, w));
            }
        }
        if let Some(f) = x.fdop {
            s.push_str(&format!("  pipe/dup/dup2 number {} fails with errno {}\n", f.0, f.1));
        }
        if let Some(st) = x.stall {
            s.push_str(&format!("  the terminal stalls after {}us for {}ms\n", st.0 / 1000, st.1 / MS));
        }
        s.push_str(&format!("  {}then {:?}\n", if x.calm { "when all is quiet, " } else { "" }, x.how));
    }
    s
}
/// the terminal's text from row r0 on, without what println printed, what
/// marks captured lines, and blanks
fn text(r0: usize) -> String {
    let vt = &k().tty.vt;
    let mut s = String::new();
    for r in vt.rows.iter().skip(r0) {
        let t = row_text(r);
        // (what Liso itself has to say)
        if t.starts_with('#') || t.contains("Your terminal is") {
            continue;
        }
        let t = t.strip_prefix("E: ").unwrap_or(&t);
        let t = t.trim();
        s.push_str(t);
    }
    s
}
/// is s some of b put into a, both in order?
fn merges(s: &str, a: &str, b: &str) -> bool {
    let (s, a, b) = (s.as_bytes(), a.as_bytes(), b.as_bytes());
    if s.len() != a.len() + b.len() {
        return false;
    }
    let mut cur: HashSet<usize> = HashSet::from([0]);
    for (n, c) in s.iter().enumerate() {
        let mut next = HashSet::new();
        for i in cur {
            let j = n - i;
            if i < a.len() && a[i] == *c {
                next.insert(i + 1);
            }
            if j < b.len() && b[j] == *c {
                next.insert(i);
            }
        }
        cur = next;
    }
    cur.contains(&a.len())
}
/// everything written to stderr since the write number n0 has appeared once
fn compare(what: &str, r0: usize, n0: usize, ret: u64) {
    let mut a = String::new();
    let mut b1 = String::new();
    let mut b2 = String::new();
    for (at, piped, b) in &k().err_log[n0..] {
        let t: String = String::from_utf8_lossy(b).chars().filter(|c| !c.is_whitespace()).collect();
        if *piped {
            a.push_str(&t)
        } else if *at < ret {
            b1.push_str(&t)
        } else {
            b2.push_str(&t)
        }
    }
    let s = text(r0);
    let ok = match s.strip_suffix(b2.as_str()) {
        Some(x) => merges(x, &a, &b1),
        None => false,
    };
    if !ok {
        let mut d = String::new();
        for r in k().tty.vt.rows.iter().skip(r0) {
            let t = row_text(r);
            if !t.trim().is_empty() {
                d.push_str(&format!("  | {}\n", t));
            }
        }
        complain(format!("{}: captured was {:?}, written directly {:?} before the end and {:?} after it, but the terminal shows\n{}", what, a, b1, b2, d));
    }
}
/// what is written to stderr isn't Liso's affair
fn alone(i: usize, mode: u32, r0: usize, n0: usize, s0: usize, quiet: bool) {
    let log = &k().err_log[n0..];
    if log.iter().any(|x| x.1) {
        complain(format!("instance {}: stderr was captured although {}", i, if mode == 1 { "it is not the terminal" } else { "Liso is in pipe mode" }));
        return;
    }
    // (what other threads write at this moment may be under way)
    if !quiet {
        return;
    }
    if mode == 1 {
        let all: String = log.iter().map(|x| String::from_utf8_lossy(&x.2)).collect();
        let got = String::from_utf8_lossy(&k().sinks[ERR_SINK].data[s0..]).replace("Your terminal is configured incorrectly. Assuming monochrome.\n", "");
        if got != all {
            complain(format!("instance {}: {:?} was written to stderr, a file, which got {:?}", i, all, got));
        }
        if k().tty.vt.rows.iter().skip(r0).any(|r| row_text(r).contains('<')) {
            complain(format!("instance {}: what was written to stderr, a file, appears on the terminal", i));
        }
    } else {
        compare(&format!("instance {}, in pipe mode", i), r0, n0, u64::MAX);
    }
}
fn perform(out: &liso::Output, w: &'static W) {
    match w {
        W::Err(s) => write_err(s.as_bytes()),
        W::Sleep(n) => sleep(*n),
        // (in pipe mode this would be mixed with what is written to stderr)
        W::Print(_) if plan().mode == 2 => {}
        W::Print(n) => {
            let _ = may_panic(|| out.println(format!("#{}", n)));
        }
        W::Status(x) => {
            let _ = may_panic(|| out.status(if *x { Some("# status") } else { None }));
        }
        W::Susp(s) => {
            let _ = may_panic(|| out.suspend_and_run(move || write_err(s.as_bytes())));
        }
    }
}
pub fn execute() {
    k().tty.termios.c_lflag &= !libc::ECHO;
    k().tty.orig = k().tty.termios;
    let p = plan();
    for (i, inst) in p.insts.iter().enumerate() {
        let bf = before();
        let (r0, n0) = (k().tty.vt.abs_row(), k().err_log.len());
        let s0 = k().sinks[ERR_SINK].data.len();
        if inst.setup && p.mode != 2 {
            k().tty.tcset_err_at = Some(k().tty.tcset_count + 1);
        }
        let fdop = inst.fdop.filter(|_| p.mode == 0);
        k().fdop_err_at = fdop.map(|f| (k().fdop_count + f.0, f.1));
        if fdop.map_or(false, |f| f.0 == 0) {
            k().thread_err_at = Some(k().thread_count + 2);
        }
        let captured = p.mode != 0 || !inst.fdop.map_or(false, |f| f.0 == 0 || f.1 != libc::EINTR);
        let mut io = liso::InputOutput::new();
        settle(60 * MS);
        k().fdop_err_at = None;
        k().thread_err_at = None;
        if !captured {
            // then what is written to stderr isn't Liso's affair
            let mut rc = IRec::default();
            let out = io.clone_output();
            shut_down(io, inst.how, &mut rc);
            k().tty.tcset_err_at = None;
            let readers = k().tty.readers_log.len();
            check_after(&bf, &out, readers, i, false);
            continue;
        }
        let out = io.clone_output();
        if let Some((a, d)) = inst.stall {
            k().post(now() + a, Event::TtyStall(d), true);
        }
        let hs: Vec<_> = inst
            .others
            .iter()
            .enumerate()
            .map(|(j, ws)| {
                let o = io.clone_output();
                spawn_actor(&format!("app {}", j), move || {
                    for w in ws {
                        perform(&o, w);
                    }
                })
            })
            .collect();
        for w in &inst.main {
            perform(&io, w);
        }
        let mut hs = Some(hs);
        if inst.calm {
            for h in hs.take().unwrap() {
                let _ = h.join();
            }
            settle(60 * MS);
            if !inst.setup && p.mode == 0 {
                // what is complete is shown, as lines
                let mut want = String::new();
                let all: Vec<u8> = k().err_log[n0..].iter().flat_map(|x| x.2.clone()).collect();
                if let Some(e) = all.iter().rposition(|c| *c == b'\n') {
                    want = String::from_utf8_lossy(&all[..e]).replace('\n', "");
                }
                let vt = &k().tty.vt;
                let got: String = vt.rows.iter().skip(r0).map(|r| row_text(r)).filter(|t| !t.starts_with('#') && !t.contains("Your terminal is")).map(|t| t.strip_prefix("E: ").unwrap_or(&t).trim().to_string()).collect();
                if want != got {
                    complain(format!("instance {}: {:?} was written to stderr in whole lines, but the terminal shows {:?}", i, want, got));
                }
                if k().err_log[n0..].iter().any(|x| !x.1) {
                    complain(format!("instance {}: what was written to stderr while Liso was alive went directly to the terminal", i));
                }
                while io.try_read().is_some() {}
            }
        }
        let mut rc = IRec::default();
        shut_down(io, inst.how, &mut rc);
        k().tty.tcset_err_at = None;
        if p.mode != 0 {
            alone(i, p.mode, r0, n0, s0, inst.calm);
        } else
        // (what other threads write directly at this moment may be under way)
        if hs.as_ref().map_or(true, |h| h.is_empty()) {
            compare(&format!("instance {}, when its end returned", i), r0, n0, rc.ret);
        }
        write_err(format!("<end {}>\n", i).replace(' ', "").as_bytes());
        for h in hs.into_iter().flatten() {
            let _ = h.join();
        }
        settle(60 * MS);
        if p.mode != 0 {
            alone(i, p.mode, r0, n0, s0, true);
        } else {
            compare(&format!("instance {}, after its end", i), r0, n0, rc.ret);
        }
        // the next one starts on a row of its own
        write_err(b"\n");
        let readers = k().tty.readers_log.len();
        check_after(&bf, &out, readers, i, false);
        if run().viol.len() + rec().err_fail.len() > 0 {
            break;
        }
    }
    run().done = true;
}
pub fn judge(abort: Option<(String, String)>) -> crate::tty::Verdict {
    let r = run();
    let mut inc = harness_panic();
    let mut v = liso_panics();
    if let Some((kind, m)) = &abort {
        if kind == "harness" {
            inc = Some(m.clone());
        } else {
            v.push(format!("{}: {}", kind, m));
        }
    }
    v.extend(rec().err_fail.iter().cloned());
    v.extend(r.viol.iter().cloned());
    if k().bad_closes > 0 {
        v.push(format!("{} file descriptors were closed that were not open", k().bad_closes));
    }
    if inc.is_some() {
        return crate::tty::Verdict { viol: vec![], inconclusive: inc, visited: 0 };
    }
    if v.is_empty() && !r.done {
        return crate::tty::Verdict { viol: vec![], inconclusive: Some("the run did not finish".into()), visited: 0 };
    }
    crate::tty::Verdict { viol: v, inconclusive: None, visited: 0 }
}
