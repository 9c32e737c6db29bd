//! Pipe mode (P11 and the pipe parts of P06, P09, P10, P16, P19): stdin or
//! stdout is not a terminal, or TERM says so.
use crate::exec::*;
use crate::gen::*;
use crate::kernel::*;
use crate::life::{check_after, shut_down, before, How, IRec};
use crate::model::Resp;
use crate::rng::Tape;
use crate::tty::{do_op, plan as tplan, run_state, show_op, Mix, Op, Verdict};
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
pub enum PFault {
    None,
    /// the nth write to stdout fails, and all later ones
    Write { nth: u64, errno: i32 },
    /// the input thread can't be started
    Thread,
    /// the reader of stdout goes away
    Close { after: u64 },
}
#[derive(Clone, Debug)]
pub enum Feed {
    Bytes(Vec<u8>),
    Eof,
    Err(i32),
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub feed: Vec<(u64, Feed)>,
    pub how: How,
    pub calm: bool,
    pub join: bool,
    pub stall: Option<(u64, u64)>,
    pub dead_reads: u32,
}
pub struct Plan {
    pub stdin_tty: bool,
    pub stdout_tty: bool,
    pub term: &'static str,
    pub insts: Vec<Inst>,
    pub fault: PFault,
    pub reads: Vec<RK>,
}
struct Snap {
    out: usize,
    resp: usize,
    read_all: bool,
    die: Option<(u64, u64)>,
    /// index of the last phase whose operations count
    phase: usize,
    nfeed: usize,
}
#[derive(Default)]
pub struct Run {
    viol: Vec<String>,
    snaps: Vec<Snap>,
    out0: Vec<usize>,
    resp0: Vec<usize>,
    data: Vec<u8>,
    arm: u64,
    dead_at: u64,
    done: bool,
}
static mut PLAN: Option<&'static Plan> = None;
static mut RUN: Option<&'static mut Run> = None;
pub fn plan() -> &'static Plan {
    unsafe { PLAN.unwrap() }
}
#[allow(static_mut_refs)]
fn run() -> &'static mut Run {
    unsafe { RUN.as_mut().unwrap() }
}
pub fn start(b: crate::tty::Plan, p: Plan) {
    crate::tty::start(b);
    unsafe {
        PLAN = Some(Box::leak(Box::new(p)));
        RUN = Some(Box::leak(Box::default()));
    }
}
pub fn is_set() -> bool {
    unsafe { PLAN.is_some() }
}
pub fn complain(s: String) {
    if k().trace {
        k().tlog(format!("!! {}", s));
    }
    run().viol.push(s);
}

fn gen_text(t: &mut Tape, tty: bool) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    if t.chance(0.1) {
        return b;
    }
    if !tty && t.chance(0.03) {
        // longer than the buffers in between
        let n = *t.pick(&[8191usize, 8192, 8193, 20_000, 4095]);
        b.extend(std::iter::repeat(b'L').take(n));
    }
    let n = t.int(1, 12);
    for _ in 0..n {
        match t.weighted(&[12, 3, 3, if tty { 0 } else { 3 }, if tty { 0 } else { 2 }, 1]) {
            0 => b.push(*t.pick(b"abcdefgh XYZ-,.0")),
            1 => b.extend(t.pick(&NARROW).to_string().bytes()),
            2 => b.extend(t.pick(&WIDE).to_string().bytes()),
            3 => b.push(*t.pick(&[0x1bu8, 0x07, 0x04, 0x03, 0x7f, 0x00, 0x08, 0x09, 0x1a, 0x0c])),
            4 => b.push(b'\r'),
            _ => b.extend(t.pick(&["  ", "\u{301}", "\u{2028}", "\u{feff}"]).bytes()),
        }
    }
    b
}
pub fn gen(t: &mut Tape, prop: &str, m: &Mix, fail: bool) -> (crate::tty::Plan, Plan) {
    let mut base = crate::tty::gen(t, prop, m);
    base.echo_off = true;
    base.kn.max_steps = 300_000;
    if fail && base.phases.len() > 2 {
        base.phases.truncate(2);
    }
    let kind = t.weighted(&[6, 3, 3, 2]);
    // stdin, stdout on the terminal?
    let (stdin_tty, stdout_tty) = [(false, false), (false, true), (true, false), (true, true)][kind];
    let (stdin_tty, stdout_tty) = if fail { (stdin_tty && !stdout_tty, false) } else { (stdin_tty, stdout_tty) };
    let term = if stdin_tty && stdout_tty { *t.pick(&["dumb", "pipe"]) } else { *t.pick(&["xterm", "dumb", "pipe", "vt52", "linux"]) };
    let n = if fail { 1 } else { base.phases.len() };
    let mut ended = false;
    let mut insts: Vec<Inst> = vec![];
    for i in 0..n {
        insts.push(t.span(|t| {
            let mut bytes: Vec<u8> = vec![];
            let lines = t.list(10, 0.8, |t| {
                let mut b = gen_text(t, stdin_tty);
                if !stdin_tty && t.chance(0.03) {
                    // not UTF-8
                    b.extend(t.pick(&[&[0xffu8][..], &[0xc3], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0x80, b'x']]).iter());
                }
                if !stdin_tty && t.chance(0.2) {
                    b.extend(b"\r");
                }
                b.push(b'\n');
                b
            });
            for l in lines {
                bytes.extend(l);
            }
            let last = i + 1 == n;
            let end = !ended && t.chance(if last { 0.5 } else { 0.2 });
            if end && t.chance(0.5) {
                bytes.extend(gen_text(t, stdin_tty));
            }
            if ended {
                bytes.clear();
            }
            let mut feed = vec![];
            let mut cur: Vec<u8> = vec![];
            let cut = *t.pick(&[0.0, 0.02, 0.2, 0.5]);
            for (j, b) in bytes.iter().enumerate() {
                cur.push(*b);
                if j + 1 == bytes.len() || (cut > 0.0 && t.chance(if bytes.len() > 2000 { 0.002 } else { cut })) {
                    feed.push((*t.pick(&[0u64, 10_000, 300_000, 2 * MS, 50 * MS]), Feed::Bytes(std::mem::take(&mut cur))));
                }
            }
            if end {
                ended = true;
                let e = if !stdin_tty && t.chance(0.15) { Feed::Err(*t.pick(&[libc::EIO, libc::EAGAIN])) } else { Feed::Eof };
                feed.push((*t.pick(&[0u64, 10_000, 2 * MS]), e));
            }
            let how = match t.weighted(&[6, 3, 3, 2, 2, 1, 1, 1, 1]) {
                0 => How::Drop,
                1 => How::BlockingDie,
                2 => How::Die,
                3 => How::DieCancelled(t.int(1, 3) as u32),
                4 => How::Elsewhere,
                6 => How::TaskDrop,
                7 => How::TaskBlockingDie,
                8 => How::TaskDie,
                _ => How::Unwind,
            };
            let stall = if !stdout_tty && t.chance(m.tty_stall) { Some((*t.pick(&[0u64, 100_000, 3 * MS]), *t.pick(&[2 * MS, 50 * MS, 500 * MS]))) } else { None };
            // without calm, some of the input may be lost with the instance
            let calm = !last || t.chance(0.6);
            Inst { feed, how, calm, join: calm || t.chance(0.5), stall, dead_reads: t.int(0, 6) as u32 }
        }));
    }
    let fault = if fail {
        match t.weighted(&[5, 5, 1]) {
            2 => PFault::Thread,
            0 => PFault::Write { nth: 1 + t.below(10) as u64, errno: *t.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC, libc::EAGAIN]) },
            _ => PFault::Close { after: *t.pick(&[0u64, 20_000, 200_000, 3 * MS, 50 * MS]) },
        }
    } else {
        PFault::None
    };
    if fault == PFault::Thread {
        insts[0].calm = false;
    }
    let reads = t.list(10, 0.8, |t| match t.below(8) {
        0 => RK::Try,
        1 => RK::Timeout(*t.pick(&[1000u64, 50_000, 300_000])),
        2 => RK::Deadline(*t.pick(&[1000i64, 30_000, -1000])),
        3 => RK::Cancel(*t.pick(&[1u32, 2, 4])),
        4 => RK::Blocking,
        5 => RK::Tokio(*t.pick(&[None, Some(20_000u64)])),
        6 => RK::Longest,
        _ => RK::Async,
    });
    // keyboards don't exist here
    for p in &mut base.phases {
        p.chunks.clear();
        p.stall = None;
        for th in &mut p.threads {
            th.retain(|o| !matches!(o, Op::Swap(_) | Op::Peek | Op::SetComp(_)));
        }
    }
    (base, Plan { stdin_tty, stdout_tty, term, insts, fault, reads })
}
pub fn show() -> String {
    let (p, b) = (plan(), tplan());
    let mut s = format!(
        "pipe mode: stdin is {}, stdout is {}, TERM={}\nschedule: {:?}\n",
        if p.stdin_tty { "the terminal" } else { "a pipe" },
        if p.stdout_tty { "the terminal" } else { "a pipe" },
        p.term,
        b.kn
    );
    if p.fault != PFault::None {
        s.push_str(&format!("then {:?} and reads {:?}\n", p.fault, p.reads));
    }
    for (i, ph) in b.phases.iter().enumerate() {
        s.push_str(&format!("phase {}:\n", i));
        for (j, th) in ph.threads.iter().enumerate() {
            for o in th {
                s.push_str(&format!("  thread {}: {}\n", j, show_op(o)));
            }
        }
        if let Some(x) = p.insts.get(i) {
            for (g, f) in &x.feed {
                let f = match f {
                    Feed::Bytes(b) => {
                        let s = format!("{:?}", String::from_utf8_lossy(b));
                        if s.len() > 300 { format!("{}... ({} bytes)", s.chars().take(100).collect::<String>(), b.len()) } else { s }
                    }
                    Feed::Eof => "end of input".into(),
                    Feed::Err(e) => format!("read error {}", e),
                };
                s.push_str(&format!("  after {:.2}ms stdin: {}\n", *g as f64 / 1e6, f));
            }
            s.push_str(&format!("  end: {:?} join={} calm={} stall={:?} reads after Dead: {}\n", x.how, x.join, x.calm, x.stall, x.dead_reads));
        }
    }
    s
}
fn attempt(pi: usize, ti: usize, op: &'static Op, f: impl FnOnce()) -> bool {
    let (t0, inv) = (now(), stamp());
    let r0 = run().resp0.last().copied().unwrap_or(0);
    let nresp = rec().resp.len() - r0;
    if k().trace {
        k().tlog(format!("calls {}", show_op(op)));
    }
    let ok = may_panic(f).is_some();
    if k().trace {
        k().tlog(format!("{} {}", if ok { "returned from" } else { "panicked in" }, show_op(op)));
    }
    run_state().recs[pi][ti].push(OpRec { inv, ret: stamp(), t0, t1: now(), blocked: 0, nresp, failed: !ok });
    ok
}
fn spawn_threads(io: &liso::InputOutput, pi: usize) -> Vec<std::thread::JoinHandle<()>> {
    let mut hs = vec![];
    for (ti, ops) in tplan().phases[pi].threads.iter().enumerate().skip(1) {
        let out = io.clone_output();
        hs.push(spawn_actor(&format!("app {}", ti), move || {
            for op in ops {
                if !attempt(pi, ti, op, || do_op(&out, op)) {
                    break;
                }
            }
        }));
    }
    hs
}
fn main_ops(io: &mut liso::InputOutput, pi: usize, reads: bool) {
    for op in &tplan().phases[pi].threads[0] {
        match op {
            Op::Read(kind) => {
                let mut dead = false;
                attempt(pi, 0, op, || {
                    if reads {
                        dead = do_read(io, kind) == Some(Resp::Dead)
                    }
                });
                if dead {
                    complain(format!("read {:?} returned Dead although nothing had failed", kind));
                }
            }
            op => {
                attempt(pi, 0, op, || do_op(io, op));
            }
        }
    }
}
fn post_feed(x: &Inst) {
    let mut at = now();
    let tty = plan().stdin_tty;
    let mut open = false;
    for (g, f) in &x.feed {
        at += g;
        if let Feed::Bytes(b) = f {
            open = b.last() != Some(&b'\n');
        }
        let e = match (f, tty) {
            (Feed::Bytes(b), false) => Event::PipeFeed(STDIN_PIPE, b.clone()),
            (Feed::Bytes(b), true) => Event::TtyInput(b.clone()),
            (Feed::Eof, false) => Event::PipeClose(STDIN_PIPE),
            // (the first ^D only ends an unfinished line)
            (Feed::Eof, true) => Event::TtyInput(if open { vec![4, 4] } else { vec![4] }),
            (Feed::Err(e), _) => Event::PipeErr(STDIN_PIPE, *e),
        };
        k().post(at, e, true);
    }
    if let Some((a, d)) = x.stall {
        k().post(now() + a, Event::SinkStall(OUT_SINK, d), true);
    }
}
fn out_bytes() -> &'static [u8] {
    if plan().stdout_tty {
        &k().tty.wlog
    } else {
        &k().sinks[OUT_SINK].data
    }
}
fn drain(io: &mut liso::InputOutput) {
    while let Some(x) = do_read(io, &RK::Try) {
        if x == Resp::Dead {
            complain("try_read returned Dead although nothing had failed".into());
            break;
        }
    }
}
fn ended(upto: usize) -> bool {
    plan().insts[..=upto.min(plan().insts.len() - 1)].iter().any(|x| x.feed.iter().any(|f| !matches!(f.1, Feed::Bytes(_))))
}
pub fn execute() {
    let (p, b) = (plan(), tplan());
    k().tty.eof_key = true;
    k().tty.termios.c_lflag &= !libc::ECHO;
    k().tty.orig = k().tty.termios;
    k().clockjump = b.clockjump;
    for ph in &b.phases {
        run_state().recs.push(vec![vec![]; ph.threads.len()]);
    }
    let fail = p.fault != PFault::None;
    let mut nfeed = 0;
    for (ii, inst) in p.insts.iter().enumerate() {
        let bf = before();
        run().out0.push(out_bytes().len());
        run().resp0.push(rec().resp.len());
        if p.fault == PFault::Thread {
            k().thread_err_at = Some(k().thread_count + 2);
        }
        let mut io = liso::InputOutput::new();
        post_feed(inst);
        nfeed += inst.feed.len();
        let mut hs = spawn_threads(&io, ii);
        main_ops(&mut io, ii, p.fault != PFault::Thread);
        let out = io.clone_output();
        let snap = |die| Snap { out: out_bytes().len(), resp: rec().resp.len(), read_all: true, die, phase: ii, nfeed };
        if inst.join || fail {
            for h in hs.drain(..) {
                let _ = h.join();
            }
        }
        if inst.calm {
            settle(60 * MS);
            drain(&mut io);
            run().snaps.push(snap(None));
        }
        if fail {
            run().arm = stamp();
            match &p.fault {
                PFault::Write { nth, errno } => k().sinks[OUT_SINK].err_at = Some((k().sinks[OUT_SINK].wcount + nth, *errno)),
                PFault::Close { after } => k().post(now() + after, Event::SinkClose(OUT_SINK), false),
                PFault::None | PFault::Thread => {}
            }
            if b.phases.len() > 1 {
                hs = spawn_threads(&io, 1);
                main_ops(&mut io, 1, false);
            }
            // sooner or later something is printed
            let o2 = out.clone();
            let pr = spawn_actor("app printer", move || {
                sleep(10_000 * MS);
                for _ in 0..20 {
                    let _ = may_panic(|| o2.println("#end"));
                    sleep(MS);
                }
            });
            let mut n = 0;
            loop {
                let kind = p.reads.get(n).cloned().unwrap_or(RK::Blocking);
                n += 1;
                if do_read(&mut io, &kind) == Some(Resp::Dead) {
                    break;
                }
                if n > 400 {
                    complain("no end of responses".into());
                    break;
                }
            }
            run().dead_at = stamp();
            for i in 0..inst.dead_reads {
                let kind = match (i + n as u32) % 8 {
                    0 => RK::Try,
                    1 => RK::Timeout(1000),
                    2 => RK::Deadline(1000),
                    3 => RK::Cancel(1),
                    4 => RK::Blocking,
                    5 => RK::Tokio(None),
                    6 => RK::Longest,
                    _ => RK::Async,
                };
                let g = do_read(&mut io, &kind);
                if g != Some(Resp::Dead) {
                    complain(format!("after Dead, read {:?} returned {:?}", kind, g));
                }
            }
            for h in hs.drain(..) {
                let _ = h.join();
            }
            let _ = pr.join();
        }
        let mut rc = IRec::default();
        let (took, _) = shut_down(io, inst.how, &mut rc);
        run().snaps.push(Snap { read_all: false, ..snap(Some(if fail { (if inst.calm { run().arm } else { 0 }, run().dead_at) } else { (rc.inv, rc.ret) })) });
        let readers = k().tty.readers_log.len();
        for h in hs {
            let _ = h.join();
        }
        let naps: u64 = b.phases[ii].threads.iter().flatten().map(|o| if let Op::Suspend { nap, .. } = o { *nap } else { 0 }).sum();
        if b.kn.p_stall == 0.0 && took > 150 * MS + naps + inst.stall.map_or(0, |s| s.1) {
            complain(format!("{:?} took {}ms", inst.how, took / MS));
        }
        // everything is as before
        if fail {
            k().thread_err_at = None;
            k().sinks[OUT_SINK].err_at = None;
            k().sinks[OUT_SINK].err = 0;
            k().sinks[OUT_SINK].closed = false;
        }
        let len = out_bytes().len();
        let eof = ended(ii);
        check_after(&bf, &out, readers, ii, true);
        if out_bytes().len() != len && !fail {
            complain("something was written to stdout after the end".into());
        }
        if !k().live_threads("Liso").is_empty() {
            complain(format!("after the end there are still threads of Liso: {:?}", k().live_threads("Liso")));
        }
        if !eof && !inst.calm && !p.stdin_tty {
            // whatever input arrives now is the program's
            settle(60 * MS);
        }
        if !eof {
            let w = format!("probe {}\n", ii);
            let e = if p.stdin_tty { Event::TtyInput(w.clone().into_bytes()) } else { Event::PipeFeed(STDIN_PIPE, w.clone().into_bytes()) };
            let n0 = k().input_stamps.len();
            k().post(now() + MS, e, true);
            let mut got = String::new();
            for _ in 0..40 {
                got.clear();
                let mut raw = vec![];
                use std::io::BufRead;
                let r = std::io::stdin().lock().read_until(b'\n', &mut raw);
                got = String::from_utf8_lossy(&raw).to_string();
                if r.is_err() || inst.calm || got.ends_with(&w) {
                    break;
                }
            }
            if !got.ends_with(&w) || (inst.calm && got != w) {
                complain(format!("after the end the program read {:?} from stdin instead of {:?}", got, w));
            }
            // (not part of what the instances are fed)
            k().input_stamps.truncate(n0);
        }
    }
    run().data = out_bytes().to_vec();
    run().done = true;
}

// --------------------------------------------------------------- evaluation
#[derive(Clone, Debug)]
enum PK {
    Out(Vec<u8>),
    /// what the suspended program prints
    Susp(Vec<u8>),
    Nothing,
    Custom(u32),
    /// (None: not UTF-8, any text will do)
    Line(Option<String>),
    /// (false: may be missing)
    Finish(bool),
    Die,
}
#[derive(Clone, Debug)]
struct PItem {
    k: PK,
    inv: u64,
    ret: u64,
    min_resp: usize,
    dbg: String,
}
fn op_items(pi: usize) -> Vec<Vec<PItem>> {
    let mut src = vec![];
    for (ti, ops) in tplan().phases[pi].threads.iter().enumerate() {
        let mut v = vec![];
        for (oi, op) in ops.iter().enumerate() {
            let Some(rc) = run_state().recs[pi][ti].get(oi) else { break };
            if rc.failed {
                continue;
            }
            let kind = match op {
                Op::Out { l, how } => {
                    if *how == 1 {
                        PK::Nothing
                    } else {
                        let mut s: String = l.m.c.iter().map(|x| x.0).collect();
                        s.push('\n');
                        PK::Out(s.into_bytes())
                    }
                }
                Op::Suspend { lines, .. } => PK::Susp(lines.iter().flat_map(|l| format!("{}\n", l).into_bytes()).collect()),
                Op::Custom(n, _) => PK::Custom(*n),
                Op::Burst { n, custom, from } => {
                    for i in *from..*from + *n {
                        let kind = if *custom { PK::Custom(i) } else { PK::Out(format!("#{}\n", i).into_bytes()) };
                        v.push(PItem { k: kind, inv: rc.inv, ret: rc.ret, min_resp: rc.nresp, dbg: format!("thread {}: {}", ti, show_op(op)) });
                    }
                    continue;
                }
                Op::Sleep(_) | Op::Read(_) => continue,
                _ => continue,
            };
            v.push(PItem { k: kind, inv: rc.inv, ret: rc.ret, min_resp: rc.nresp, dbg: format!("thread {}: {}", ti, show_op(op)) });
        }
        src.push(v);
    }
    src
}
/// the lines of input: text, instance whose feed completes them, stamp
fn lines() -> Vec<(Option<String>, usize, u64, bool)> {
    let mut v = vec![];
    let mut cur: Vec<u8> = vec![];
    let mut n = 0;
    let stamps = &k().input_stamps;
    let fin = |cur: &mut Vec<u8>| -> Option<String> { String::from_utf8(std::mem::take(cur)).ok() };
    for (ii, x) in plan().insts.iter().enumerate() {
        for (_, f) in &x.feed {
            let Some(st) = stamps.get(n).copied() else { return v };
            n += 1;
            match f {
                Feed::Bytes(b) => {
                    for c in b {
                        if *c == b'\n' {
                            v.push((fin(&mut cur), ii, st, false));
                        } else {
                            cur.push(*c);
                        }
                    }
                }
                _ => {
                    if !cur.is_empty() {
                        v.push((fin(&mut cur), ii, st, false));
                    }
                    v.push((None, ii, st, true));
                }
            }
        }
    }
    v
}
struct Ex<'a> {
    src: Vec<Vec<PItem>>,
    out: &'a [u8],
    resp: &'a [Resp],
    /// every item must have taken effect
    all: bool,
    /// stdout fails at its end
    fail: bool,
    seen: HashSet<(Vec<usize>, usize)>,
    best: (usize, String),
    over: bool,
}
fn same_line(want: &Option<String>, got: &str) -> bool {
    // more than one carriage return before the newline may be seen as part of
    // the terminator, or not
    match want {
        None => true,
        Some(w) => {
            let (a, b) = (w.trim_end_matches('\r'), got.trim_end_matches('\r'));
            let (x, y) = (w.len() - a.len(), got.len() - b.len());
            a == b && (y == 0 || y < x)
        }
    }
}
impl<'a> Ex<'a> {
    fn fit(&mut self, n: usize, why: String) {
        if n >= self.best.0 {
            self.best = (n, why);
        }
    }
    fn respond(&mut self, r: usize, want: &PK) -> Option<usize> {
        if r >= self.resp.len() {
            return if self.all { None } else { Some(r + 1) };
        }
        let ok = match (want, &self.resp[r]) {
            (PK::Custom(n), Resp::Custom(m)) => n == m,
            (PK::Line(w), Resp::Input(g)) => same_line(w, g),
            (PK::Finish(_), Resp::Finish) => true,
            _ => false,
        };
        if ok {
            Some(r + 1)
        } else {
            None
        }
    }
    fn dfs(&mut self, pos: &mut Vec<usize>, off: usize, r: usize) -> bool {
        if !self.seen.insert((pos.clone(), off * 100_000 + r)) {
            return false;
        }
        if self.seen.len() > 300_000 {
            self.over = true;
            return false;
        }
        let placed: usize = pos.iter().sum();
        let finished = (0..pos.len()).all(|s| self.src[s][pos[s]..].iter().all(|x| matches!(x.k, PK::Finish(false))));
        if self.all && finished {
            if off == self.out.len() && r >= self.resp.len() {
                return true;
            }
            let o = String::from_utf8_lossy(&self.out[off..]).to_string();
            let rs = self.resp.get(r..).unwrap_or(&[]).to_vec();
            self.fit(placed, format!("beyond what was asked for, stdout shows {:?} and the responses {:?} were read", o, rs));
        }
        for s in 0..pos.len() {
            if pos[s] >= self.src[s].len() {
                continue;
            }
            let it = self.src[s][pos[s]].clone();
            if it.min_resp > r {
                continue;
            }
            if (0..pos.len()).any(|o| o != s && pos[o] < self.src[o].len() && self.src[o][pos[o]].ret < it.inv && !matches!(self.src[o][pos[o]].k, PK::Finish(_))) {
                continue;
            }
            let rest = &self.out[off..];
            let next = match &it.k {
                PK::Out(b) => {
                    if rest.starts_with(b) {
                        Some((off + b.len(), r))
                    } else {
                        let n = b.len() + 20;
                        let o = String::from_utf8_lossy(&rest[..rest.len().min(n)]).to_string();
                        self.fit(placed, format!("{}: instead of {:?} stdout shows {:?}", it.dbg, String::from_utf8_lossy(b), o));
                        None
                    }
                }
                PK::Susp(b) => {
                    if rest.starts_with(b) {
                        Some((off + b.len(), r))
                    } else if self.fail && b.starts_with(rest) {
                        Some((self.out.len(), r))
                    } else {
                        let o = String::from_utf8_lossy(rest).to_string();
                        self.fit(placed, format!("{}: instead of {:?} stdout shows {:?}", it.dbg, String::from_utf8_lossy(b), o));
                        None
                    }
                }
                PK::Nothing => Some((off, r)),
                PK::Custom(_) | PK::Line(_) | PK::Finish(_) => {
                    let x = self.respond(r, &it.k);
                    if x.is_none() {
                        self.fit(placed, format!("{}: its response should follow, but {:?} was read", it.dbg, self.resp.get(r)));
                    }
                    x.map(|r| (off, r))
                }
                PK::Die => {
                    // what remains of the output must be the beginning of
                    // something that failed
                    let rest_ok = rest.is_empty()
                        || (self.fail
                            && (0..pos.len()).any(|o| {
                                o != s
                                    && match self.src[o].get(pos[o]).map(|x| &x.k) {
                                        Some(PK::Out(b)) => b.starts_with(rest),
                                        _ => false,
                                    }
                            }));
                    if rest_ok && r >= self.resp.len() {
                        return true;
                    }
                    let o = String::from_utf8_lossy(rest).to_string();
                    let rs = self.resp.get(r..).unwrap_or(&[]).to_vec();
                    self.fit(placed, format!("{}: beyond what happened before, stdout shows {:?} and the responses {:?} were read", it.dbg, o, rs));
                    None
                }
            };
            if let Some((o, q)) = next {
                pos[s] += 1;
                if self.dfs(pos, o, q) {
                    return true;
                }
                pos[s] -= 1;
            }
        }
        false
    }
}
pub fn judge(abort: Option<(String, String)>) -> Verdict {
    let mut visited = 0;
    let mut v = vec![];
    if let Some(x) = harness_panic() {
        return Verdict { viol: vec![], inconclusive: Some(x), visited };
    }
    v.extend(liso_panics());
    if let Some((kind, m)) = &abort {
        if kind == "harness" {
            return Verdict { viol: vec![], inconclusive: Some(m.clone()), visited };
        }
        v.push(format!("{}: {}", kind, m));
    }
    let r = run();
    v.extend(r.viol.iter().cloned());
    if k().bad_closes > 0 {
        v.push(format!("{} file descriptors were closed that were not open", k().bad_closes));
    }
    if v.is_empty() && !r.done {
        return Verdict { viol: vec![], inconclusive: Some("the run did not finish".into()), visited };
    }
    if !v.is_empty() {
        return Verdict { viol: v, inconclusive: None, visited };
    }
    let p = plan();
    let fail = p.fault != PFault::None;
    let mut inc = None;
    let ls = lines();
    for s in &r.snaps {
        let ii = s.phase;
        let mut src = op_items(ii);
        if fail && s.die.is_some() && tplan().phases.len() > 1 {
            src.extend(op_items(1));
        }
        let mut inp = vec![];
        let eof_before = ls.iter().any(|l| l.3 && l.1 < ii);
        for (text, inst, st, eof) in &ls {
            if *inst != ii {
                continue;
            }
            // (on a terminal, control-D may just end an unfinished line)
            let kind = if *eof { PK::Finish(!p.stdin_tty) } else { PK::Line(text.clone()) };
            let mut ret = u64::MAX;
            if fail && *st < r.arm && s.die.is_some() && p.insts[0].calm {
                // what came before the failure was dealt with before it
                ret = r.arm - 1;
            }
            inp.push(PItem { k: kind, inv: *st, ret, min_resp: 0, dbg: if *eof { "end of input".into() } else { format!("line of input {:?}", text.as_ref().map(|t| t.chars().take(60).collect::<String>())) } });
        }
        if eof_before {
            // (control-D on a terminal doesn't last)
            inp.push(PItem { k: PK::Finish(!p.stdin_tty), inv: 0, ret: u64::MAX, min_resp: 0, dbg: "end of input".into() });
        }
        src.push(inp);
        if let Some((inv, ret)) = s.die {
            src.push(vec![PItem { k: PK::Die, inv, ret, min_resp: if fail { 0 } else { s.resp - r.resp0[ii] }, dbg: if fail { "failure".into() } else { format!("{:?}", p.insts[ii].how) } }]);
            if fail {
                // the printer's lines
                src.push((0..20).map(|_| PItem { k: PK::Out(b"#end\n".to_vec()), inv: r.arm, ret: u64::MAX, min_resp: 0, dbg: "a last line".into() }).collect());
            }
        }
        let mut ex = Ex { out: &r.data[r.out0[ii]..s.out], resp: &rec().resp[r.resp0[ii]..s.resp], all: s.die.is_none(), fail: fail && s.die.is_some(), seen: HashSet::new(), best: (0, String::new()), over: false, src };
        let mut pos = vec![0; ex.src.len()];
        let ok = ex.dfs(&mut pos, 0, 0);
        visited += ex.seen.len() as u64;
        if !ok {
            if ex.over {
                inc = Some("too many interleavings to decide".into());
            } else {
                v.push(format!("instance {}{}: {}", ii, if s.die.is_some() { " at its end" } else { "" }, ex.best.1));
            }
            break;
        }
    }
    if v.is_empty() && inc.is_none() && !fail {
        let mut want: Vec<u32> = tplan().phases.iter().enumerate().filter(|(i, _)| p.insts.get(*i).map_or(false, |x| x.calm)).flat_map(|(_, x)| x.threads.iter().flatten()).filter_map(|o| if let Op::Suspend { id, .. } = o { Some(*id) } else { None }).collect();
        let mut got = rec().susp.clone();
        want.sort();
        got.sort();
        let mut d = got.clone();
        d.dedup();
        if d != got {
            v.push(format!("a closure given to suspend_and_run ran twice: {:?}", got));
        }
        if want.iter().any(|x| !got.contains(x)) {
            v.push(format!("closures {:?} were given to suspend_and_run but {:?} ran", want, got));
        }
    }
    Verdict { viol: v, inconclusive: inc, visited }
}
