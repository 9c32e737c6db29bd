//! The simulated kernel: scheduler, clock, futexes, signals, file descriptors,
//! terminal, pipes. Real threads of the real program run one at a time; the
//! thread that holds the token is the only one that touches this state, and
//! which thread gets the token next is decided by the recorded schedule tape.
use crate::fs::Fs;
use crate::rng::Tape;
use crate::vt::Vt;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering};

extern "C" {
    pub fn __real_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64;
}

thread_local! {
    pub static SELF: Cell<i32> = const { Cell::new(-1) };
}
#[inline]
pub fn me() -> i32 {
    SELF.try_with(|s| s.get()).unwrap_or(-1)
}

pub static mut KP: *mut Kernel = std::ptr::null_mut();
#[inline]
pub fn k() -> &'static mut Kernel {
    unsafe { &mut *KP }
}

pub const MS: u64 = 1_000_000;
pub const DAY: u64 = 86_400_000 * MS;
pub const T0: u64 = 1_000_000_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wait {
    Futex(usize, u32),
    TtyR,
    TtyW,
    PipeR(usize),
    PipeW(usize),
    Sleep,
    Join(usize),
    Idle(u64),
    Never,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Ready,
    Blocked(Wait),
    Exited,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wake {
    None,
    Woken,
    TimedOut,
    Signal,
}

pub struct Th {
    pub run: Box<AtomicU32>,
    pub st: St,
    pub wake: Wake,
    pub deadline: Option<u64>,
    pub yielded: bool,
    pub yielded_at: u64,
    pub sigs: VecDeque<i32>,
    pub pthread: usize,
    pub name: String,
    pub actor: bool,
    pub prio: u32,
    /// simulated time spent blocked on anything but its own sleeps, and the
    /// kinds of blocking, since last reset (used to decide "never blocks")
    pub blocked_ns: u64,
    pub blocked_on: Vec<Wait>,
    pub created_at: u64,
    /// the next thread it wants to start can't be started
    pub spawn_err: bool,
}

#[derive(Clone, Debug)]
pub enum Event {
    TtyInput(Vec<u8>),
    TtyHang,
    TtyStall(u64),
    TtyUnstall,
    PipeFeed(usize, Vec<u8>),
    PipeClose(usize),
    PipeErr(usize, i32),
    PipeUnstall(usize),
    SinkStall(usize, u64),
    Resize(u16, u16),
    TtyReadErr,
    TtyWriteErr(i32, u64),
    SinkClose(usize),
    Mark,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Obj {
    Tty,
    PipeR(usize),
    PipeW(usize),
    /// a pipe whose other end is outside the process (collected by the harness)
    Sink(usize),
    File(usize),
    Null,
}
#[derive(Clone, Debug)]
pub struct Ofd {
    pub obj: Obj,
    pub refs: usize,
    pub pos: usize,
    pub append: bool,
    pub path: String,
}
#[derive(Default, Clone, Debug)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub readers: usize,
    pub writers: usize,
    /// write end held outside the process (stdin source)
    pub ext_writer: bool,
    /// reads fail once the data is consumed
    pub err: i32,
}
#[derive(Default, Clone, Debug)]
pub struct Sink {
    pub data: Vec<u8>,
    pub closed: bool,
    pub stalled: bool,
    pub err: i32,
    pub wcount: u64,
    pub err_at: Option<(u64, i32)>,
}

pub struct Tty {
    pub termios: libc::termios,
    pub orig: libc::termios,
    pub inq: VecDeque<u8>,
    pub line: Vec<u8>,
    pub hung: bool,
    pub hang_read_errno: i32,
    /// end of input was typed
    pub eof: bool,
    /// ^D in cooked mode is the end of the input (only where the program
    /// reads lines from a terminal itself; elsewhere it is a byte like others).
    pub eof_key: bool,
    /// everything written
    pub wlog: Vec<u8>,
    pub read_err: bool,
    pub stalled: bool,
    pub write_err: i32,
    /// remaining write errors (u64::MAX = for ever)
    pub write_err_left: u64,
    pub wcount: u64,
    pub err_at: Option<(u64, i32, u64)>,
    pub stall_at: Option<(u64, u64)>,
    pub ws: (u16, u16),
    pub ioctl_err: bool,
    pub tcset_err_at: Option<u64>,
    /// when it first failed in a way that Liso must notice
    pub failed_at: Option<u64>,
    pub tcset_count: u64,
    pub vt: Vt,
    pub consumed: u64,
    /// bytes written while the terminal was in raw mode / not
    pub raw_writes: u64,
    pub readers_log: Vec<(i32, usize)>,
    /// when the mode was changed (stamp), and to raw?
    pub tcset_log: Vec<(u64, bool)>,
}
impl Tty {
    pub fn raw(&self) -> bool {
        self.termios.c_lflag & libc::ICANON == 0
    }
}

#[derive(Clone, Debug)]
pub struct Knobs {
    pub p_switch: f64,
    pub edge_mean: u32,
    pub pct: bool,
    /// how often threads that wait by spinning spin before time passes
    pub spin_max: u64,
    pub p_stall: f64,
    pub p_spurious: f64,
    pub p_short_read: f64,
    pub p_eintr: f64,
    /// writes to the terminal (or output pipe) interrupted before they wrote anything
    pub p_eintr_w: f64,
    pub p_short_write: f64,
    pub max_steps: u64,
    pub max_edges: u64,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            p_switch: 0.1,
            edge_mean: 0,
            pct: false,
            spin_max: 2,
            p_stall: 0.0,
            p_spurious: 0.0,
            p_short_read: 0.0,
            p_eintr: 0.0,
            p_eintr_w: 0.0,
            p_short_write: 0.0,
            max_steps: 60_000,
            max_edges: 40_000_000,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum F {
    Preempt = 0,
    Switch,
    Stall,
    Spurious,
    ShortRead,
    Eintr,
    ShortWrite,
    WriteStall,
    WriteErr,
    Hangup,
    SetupErr,
    ReadErr,
    FsErr,
    FsShort,
    FsCrash,
    FsTorn,
    FsPowerLoss,
    SigStop,
    PipeEof,
    SinkClosed,
    InputSplit,
    NotifyAny,
    FdErr,
    ThreadErr,
    N,
}
pub const FNAMES: [&str; F::N as usize] = [
    "preemption_in_code",
    "context_switch_at_syscall",
    "thread_stall_clock_jump",
    "spurious_futex_wakeup",
    "short_read",
    "interrupted_syscall",
    "short_write",
    "terminal_stall",
    "write_error",
    "terminal_hangup",
    "terminal_setup_error",
    "read_error",
    "file_operation_error",
    "file_short_write",
    "crash_in_file_operation",
    "torn_file_write",
    "power_loss",
    "process_stop",
    "input_eof",
    "output_pipe_closed",
    "input_split_into_chunks",
    "wake_order_choice",
    "pipe_dup_error",
    "thread_creation_error",
];

pub struct Kernel {
    pub now: u64,
    pub th: Vec<Th>,
    pub ev: BTreeMap<(u64, u64), (Event, bool)>,
    pub evseq: u64,
    pub outstanding: usize,
    pub fds: Vec<Option<usize>>,
    pub ofds: Vec<Ofd>,
    pub pipes: Vec<Pipe>,
    pub sinks: Vec<Sink>,
    pub tty: Tty,
    pub fs: Fs,
    pub sig: [(usize, i32); 65],
    pub tape: Tape,
    pub kn: Knobs,
    pub steps: u64,
    pub edges: u64,
    pub edge_left: u32,
    pub edge_armed: u32,
    pub switched_at: u64,
    pub spins: u64,
    pub all_spins: u64,
    pub hash: u64,
    pub faults: [u64; F::N as usize],
    pub trace: bool,
    pub log: Vec<String>,
    pub spawn_actor: bool,
    pub on_abort: fn(&str, &str) -> !,
    pub errout: Vec<(i32, String)>,
    pub panics: Vec<String>,
    pub stops: u64,
    /// when the process was stopped, and until when
    pub stop_log: Vec<(u64, u64)>,
    pub on_stop: Option<fn()>,
    pub clockjump: u64,
    pub real_open_attempts: Vec<String>,
    pub urandom: u64,
    pub idle_advance: u64,
    pub last_sig_restart: bool,
    pub bad_closes: u64,
    pub wall_skew: i64,
    /// when each chunk of keyboard input arrived, in the order of `stamp()`
    pub input_stamps: Vec<u64>,
    /// what was written to fd 2: when, whether into a pipe, what
    /// the n-th pipe, dup or dup2 fails
    pub fdop_err_at: Option<(u64, i32)>,
    /// which of Liso's threads can't be started; how many were to be
    pub thread_err_at: Option<u64>,
    pub thread_count: u64,
    pub fdop_count: u64,
    pub err_log: Vec<(u64, bool, Vec<u8>)>,
    pub order: u64,
}

static mut COV: *mut u8 = std::ptr::null_mut();
pub static mut COV_N: usize = 0;
pub fn set_cov(p: *mut u8) {
    unsafe { COV = p }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let n = (stop as usize - start as usize) / 4;
        if n == 0 || *start != 0 {
            return;
        }
        for i in 0..n {
            COV_N += 1;
            *start.add(i) = COV_N as u32;
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let m = me();
    if m < 0 {
        return;
    }
    unsafe {
        if !COV.is_null() {
            *COV.add(*g as usize) = 1;
        }
        let k = k();
        k.edges += 1;
        if k.edge_left > 0 {
            k.edge_left -= 1;
            if k.edge_left == 0 {
                edge_point(m as usize, *g);
            }
        } else if k.edges & 0xffff == 0 {
            // code that never enters the kernel: let time pass and others run
            edge_point(m as usize, *g);
        }
    }
}
#[cold]
fn edge_point(m: usize, g: u32) {
    let k = k();
    if k.edges > k.kn.max_edges {
        k.abort("hang", "a thread runs for ever without making progress");
    }
    k.rearm();
    k.tick(100);
    k.bump(F::Preempt);
    k.mix(0xE000_0000 ^ g as u64);
    if k.trace {
        k.tlog(format!("preempted inside liso (edge {})", g));
    }
    sched(m, true);
}

fn raw_futex_wait(a: &AtomicU32) {
    unsafe {
        __real_syscall(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0);
    }
}
fn raw_futex_wake(a: &AtomicU32) {
    unsafe {
        __real_syscall(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
    }
}
pub fn park_until_token(m: usize) {
    let p: *const AtomicU32 = &*k().th[m].run;
    let a = unsafe { &*p };
    while a.load(Ordering::Acquire) == 0 {
        raw_futex_wait(a);
    }
    a.store(0, Ordering::Relaxed);
}
pub fn hand_over(to: usize) {
    hand(to)
}
fn hand(to: usize) {
    let p: *const AtomicU32 = &*k().th[to].run;
    let a = unsafe { &*p };
    a.store(1, Ordering::Release);
    raw_futex_wake(a);
}

/// Gives up the token if the schedule says so. The caller has set its own
/// state. `voluntary` only matters for statistics.
pub fn sched(m: usize, preempt: bool) {
    let next = k().pick(m, preempt);
    if next != m {
        hand(next);
        park_until_token(m);
    }
    deliver_signals(m);
}

/// a scheduling point at the entry of every simulated system call
pub fn point(m: usize, _what: &'static str) {
    let k = k();
    k.tick(200);
    sched(m, false);
}

pub fn block(m: usize, w: Wait, deadline: Option<u64>) -> Wake {
    let k = k();
    let t0 = k.now;
    {
        let t = &mut k.th[m];
        t.st = St::Blocked(w);
        t.deadline = deadline;
        t.wake = Wake::None;
        if t.blocked_on.len() < 64 {
            t.blocked_on.push(w);
        }
    }
    if k.trace {
        // addresses differ from process to process
        let what = match w {
            Wait::Futex(..) => "a futex".into(),
            w => format!("{:?}", w),
        };
        k.tlog(format!("blocks on {}{}", what, deadline.map(|d| format!(" until +{:.3}ms", (d - T0) as f64 / 1e6)).unwrap_or_default()));
    }
    let next = k.pick(m, false);
    if next != m {
        hand(next);
        park_until_token(m);
    }
    let k = crate::kernel::k();
    let t = &mut k.th[m];
    t.st = St::Ready;
    t.deadline = None;
    if w != Wait::Sleep {
        t.blocked_ns += k.now - t0;
    }
    let r = t.wake;
    deliver_signals(m);
    r
}

/// runs pending signal handlers of the calling thread
pub fn deliver_signals(m: usize) {
    loop {
        let k = k();
        let Some(s) = k.th[m].sigs.pop_front() else { return };
        let (h, _) = k.sig[s as usize];
        if k.trace {
            k.tlog(format!("signal {} delivered", s));
        }
        if h == libc::SIG_IGN {
            continue;
        }
        if h == libc::SIG_DFL {
            if s == libc::SIGCHLD || s == libc::SIGWINCH || s == libc::SIGCONT {
                continue;
            }
            k.abort("killed", &format!("the process was killed by signal {} (no handler installed when it arrived)", s));
        }
        k.last_sig_restart = k.sig[s as usize].1 & libc::SA_RESTART != 0;
        let f: extern "C" fn(i32) = unsafe { std::mem::transmute(h) };
        f(s);
    }
}

pub fn cooked() -> libc::termios {
    let mut t: libc::termios = unsafe { std::mem::zeroed() };
    t.c_iflag = libc::ICRNL | libc::IXON | libc::BRKINT;
    t.c_oflag = libc::OPOST | libc::ONLCR;
    t.c_cflag = libc::CS8 | libc::CREAD | libc::B38400;
    t.c_lflag = libc::ICANON | libc::ECHO | libc::ISIG | libc::IEXTEN;
    t.c_cc[libc::VMIN] = 1;
    t
}
impl Kernel {
    pub fn new(tape: Tape, kn: Knobs, vt: Vt, ws: (u16, u16), on_abort: fn(&str, &str) -> !) -> Kernel {
        let mut sig = [(libc::SIG_DFL, 0); 65];
        sig[libc::SIGPIPE as usize] = (libc::SIG_IGN, 0);
        Kernel {
            now: T0,
            th: vec![],
            ev: BTreeMap::new(),
            evseq: 0,
            outstanding: 0,
            fds: vec![],
            ofds: vec![],
            pipes: vec![],
            sinks: vec![],
            tty: Tty {
                termios: cooked(),
                orig: cooked(),
                inq: VecDeque::new(),
                line: vec![],
                hung: false,
                hang_read_errno: libc::EIO,
                eof: false,
                eof_key: false,
                wlog: vec![],
                read_err: false,
                stalled: false,
                write_err: 0,
                write_err_left: 0,
                wcount: 0,
                err_at: None,
                stall_at: None,
                ws,
                ioctl_err: false,
                tcset_err_at: None,
                failed_at: None,
                tcset_count: 0,
                vt,
                consumed: 0,
                raw_writes: 0,
                readers_log: vec![],
                tcset_log: vec![],
            },
            fs: Fs::default(),
            sig,
            tape,
            kn,
            steps: 0,
            edges: 0,
            edge_left: 0,
            edge_armed: 0,
            switched_at: 0,
            spins: 0,
            all_spins: 0,
            hash: 0xcbf29ce484222325,
            faults: [0; F::N as usize],
            trace: false,
            log: vec![],
            spawn_actor: false,
            on_abort,
            errout: vec![],
            panics: vec![],
            stops: 0,
            stop_log: vec![],
            on_stop: None,
            clockjump: 0,
            real_open_attempts: vec![],
            urandom: 0x5eed,
            idle_advance: 0,
            last_sig_restart: false,
            bad_closes: 0,
            wall_skew: 0,
            input_stamps: vec![],
            err_log: vec![],
            fdop_err_at: None,
            thread_err_at: None,
            thread_count: 0,
            fdop_count: 0,
            order: 1,
        }
    }
    pub fn tick(&mut self, ns: u64) {
        self.now += ns;
    }
    pub fn bump(&mut self, f: F) {
        self.faults[f as usize] += 1;
    }
    #[inline]
    pub fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(23) ^ 0x9E3779B97F4A7C15;
    }
    pub fn tlog(&mut self, s: String) {
        if self.trace && self.log.len() < 6000 {
            let m = me();
            let n = if m >= 0 { self.th[m as usize].name.clone() } else { "-".into() };
            self.log.push(format!("+{:>12.6}ms T{} {}: {}", (self.now - T0) as f64 / 1e6, m, n, s));
        }
    }
    pub fn abort(&mut self, kind: &str, msg: &str) -> ! {
        let mut s = msg.to_string();
        for (i, t) in self.th.iter().enumerate() {
            if t.st != St::Exited {
                let st = match t.st {
                    St::Blocked(Wait::Futex(..)) => "blocked on a futex".to_string(),
                    x => format!("{:?}", x),
                };
                s.push_str(&format!("; T{} {} {}{}", i, t.name, st, if t.yielded { " (yielding)" } else { "" }));
            }
        }
        (self.on_abort)(kind, &s)
    }
    pub fn rearm(&mut self) {
        if self.kn.edge_mean == 0 {
            self.edge_left = 0;
            return;
        }
        let mean = self.kn.edge_mean;
        self.edge_left = self.tape.draw(|r| 1 + r.below(mean * 2));
    }
    pub fn post(&mut self, at: u64, e: Event, counted: bool) {
        self.evseq += 1;
        if counted {
            self.outstanding += 1;
        }
        let at = at.max(self.now);
        let s = self.evseq;
        self.ev.insert((at, s), (e, counted));
    }
    fn fire_events(&mut self) {
        while let Some((&(t, s), _)) = self.ev.iter().next() {
            if t > self.now {
                break;
            }
            let (e, counted) = self.ev.remove(&(t, s)).unwrap();
            if counted {
                self.outstanding -= 1;
            }
            self.apply(e);
        }
    }
    fn stdin_stamp(&mut self, p: usize) {
        if p == 0 {
            self.order += 1;
            let o = self.order;
            self.input_stamps.push(o);
        }
    }
    pub fn apply(&mut self, e: Event) {
        if self.trace {
            let m = match &e {
                Event::TtyInput(b) => format!("** terminal sends {:?}", String::from_utf8_lossy(b)),
                e => format!("** {:?}", e),
            };
            if self.log.len() < 6000 {
                self.log.push(format!("+{:>12.6}ms {}", (self.now - T0) as f64 / 1e6, m));
            }
        }
        self.mix(0xEE00);
        match e {
            Event::TtyInput(b) => {
                self.order += 1;
                let o = self.order;
                self.input_stamps.push(o);
                self.tty_input(&b)
            }
            Event::TtyHang => {
                self.bump(F::Hangup);
                self.tty.hung = true;
                self.tty.failed_at.get_or_insert(self.now);
                self.tty.stalled = false;
                self.wake_all(Wait::TtyR);
                self.wake_all(Wait::TtyW);
            }
            Event::TtyReadErr => {
                self.bump(F::ReadErr);
                self.tty.read_err = true;
                self.tty.failed_at.get_or_insert(self.now);
                self.wake_all(Wait::TtyR);
            }
            Event::TtyWriteErr(e, n) => {
                self.tty.write_err = e;
                self.tty.write_err_left = n;
                self.tty.stalled = false;
                self.wake_all(Wait::TtyW);
            }
            Event::TtyStall(d) => {
                self.tty.stalled = true;
                self.bump(F::WriteStall);
                let at = self.now + d;
                self.post(at, Event::TtyUnstall, true);
            }
            Event::TtyUnstall => {
                self.tty.stalled = false;
                self.wake_all(Wait::TtyW);
            }
            Event::PipeFeed(p, b) => {
                self.stdin_stamp(p);
                self.pipes[p].buf.extend(b);
                self.wake_all(Wait::PipeR(p));
            }
            Event::PipeClose(p) => {
                self.stdin_stamp(p);
                self.bump(F::PipeEof);
                self.pipes[p].ext_writer = false;
                self.wake_all(Wait::PipeR(p));
            }
            Event::PipeErr(p, e) => {
                self.stdin_stamp(p);
                self.bump(F::ReadErr);
                self.pipes[p].err = e;
                self.wake_all(Wait::PipeR(p));
            }
            Event::SinkStall(s, d) => {
                self.sinks[s].stalled = true;
                self.bump(F::WriteStall);
                let at = self.now + d;
                self.post(at, Event::PipeUnstall(s), true);
            }
            Event::PipeUnstall(s) => {
                self.sinks[s].stalled = false;
                self.wake_all(Wait::PipeW(s + 1000));
            }
            Event::SinkClose(s) => {
                self.bump(F::SinkClosed);
                self.sinks[s].closed = true;
                self.sinks[s].stalled = false;
                self.wake_all(Wait::PipeW(s + 1000));
            }
            Event::Resize(w, h) => {
                self.tty.ws = (w, h);
            }
            Event::Mark => {}
        }
    }
    pub fn tty_input(&mut self, b: &[u8]) {
        let t = &mut self.tty;
        if t.raw() {
            t.inq.extend(b);
        } else {
            for &c in b {
                let c = if c == b'\r' { b'\n' } else { c };
                if c == 4 && t.eof_key {
                    let l = std::mem::take(&mut t.line);
                    t.eof |= l.is_empty();
                    t.inq.extend(l);
                    continue;
                }
                if t.termios.c_lflag & libc::ECHO != 0 {
                    if c == b'\n' {
                        t.vt.feed(b"\r\n")
                    } else if c >= 0x20 {
                        t.vt.feed(&[c])
                    }
                }
                t.line.push(c);
                if c == b'\n' {
                    let l = std::mem::take(&mut t.line);
                    t.inq.extend(l);
                }
            }
        }
        if !self.tty.inq.is_empty() || self.tty.eof {
            self.wake_all(Wait::TtyR);
        }
    }
    pub fn wake_all(&mut self, w: Wait) {
        for i in 0..self.th.len() {
            if self.th[i].st == St::Blocked(w) {
                self.wake(i, Wake::Woken);
            }
        }
    }
    pub fn wake(&mut self, i: usize, why: Wake) {
        let t = &mut self.th[i];
        t.st = St::Ready;
        t.deadline = None;
        t.wake = why;
        t.yielded = false;
    }
    fn wake_deadlines(&mut self) {
        for i in 0..self.th.len() {
            if let St::Blocked(_) = self.th[i].st {
                if let Some(d) = self.th[i].deadline {
                    if d <= self.now {
                        self.wake(i, Wake::TimedOut);
                    }
                }
            }
        }
    }
    pub fn next_time(&self) -> Option<u64> {
        let a = self.ev.keys().next().map(|x| x.0);
        let b = self
            .th
            .iter()
            .filter(|t| matches!(t.st, St::Blocked(_)))
            .filter_map(|t| t.deadline)
            .min();
        match (a, b) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (x, None) => x,
            (None, y) => y,
        }
    }
    pub fn pick_from(&mut self, m: usize) -> usize {
        self.pick(m, false)
    }
    /// chooses who runs next
    fn pick(&mut self, m: usize, preempt: bool) -> usize {
        self.steps += 1;
        if self.steps > self.kn.max_steps * 6 {
            self.abort("hang", "no end in sight: step limit of the run reached");
        }
        if self.kn.p_stall > 0.0 {
            let p = self.kn.p_stall;
            let v = self.tape.draw(|r| if r.chance(p) { 1 + r.below(5) } else { 0 });
            if v > 0 {
                self.bump(F::Stall);
                let d = [0, 50_000, 3 * MS, 30 * MS, 45 * MS, 400 * MS][v as usize % 6];
                self.now += d;
                if self.trace {
                    self.tlog(format!("** everything stalls for {}us", d / 1000));
                }
            }
        }
        let mut rounds = 0;
        let cands: Vec<usize> = loop {
            self.fire_events();
            self.wake_deadlines();
            let n = self.th.len();
            let mut c: Vec<usize> = vec![];
            let mut y: Vec<usize> = vec![];
            for d in 0..n {
                let i = (m + d) % n;
                if self.th[i].st == St::Ready {
                    // whoever yields comes after the others, but not for ever
                    if self.th[i].yielded && self.steps - self.th[i].yielded_at < 100 {
                        y.push(i)
                    } else {
                        c.push(i)
                    }
                }
            }
            if !c.is_empty() {
                if !(preempt && c.len() == 1 && c[0] == m) {
                    self.spins = 0;
                }
                break c;
            }
            if !y.is_empty() {
                // everybody who could run only spins
                self.spins += 1;
                for &i in &y {
                    self.th[i].yielded = false;
                }
                self.all_spins += 1;
                let max = if self.all_spins > 6000 { 2 } else { self.kn.spin_max };
                if self.spins > max {
                    match self.next_time() {
                        Some(t) => {
                            self.now = self.now.max(t);
                            self.spins = 0;
                            rounds += 1;
                            if rounds > 100_000 {
                                self.abort("hang", "timers only");
                            }
                            continue;
                        }
                        None => {
                            if self.spins > max + 500 {
                                self.abort("hang", "livelock: the only runnable threads spin for ever and nothing else can happen");
                            }
                        }
                    }
                }
                // the caller, who just yielded, goes last
                if y.len() > 1 && y[0] == m {
                    y.rotate_left(1);
                }
                break y;
            }
            // nobody can run
            let nt = self.next_time();
            let actors_done = self.th.iter().all(|t| !t.actor || t.st == St::Exited);
            if self.outstanding == 0 && actors_done {
                if let Some(i) = self.th.iter().position(|t| matches!(t.st, St::Blocked(Wait::Idle(_)))) {
                    let St::Blocked(Wait::Idle(near)) = self.th[i].st else { unreachable!() };
                    if nt.map_or(true, |t| t > self.now + near) {
                        self.wake(i, Wake::Woken);
                        continue;
                    }
                }
            }
            match nt {
                Some(t) => {
                    self.idle_advance += t.saturating_sub(self.now);
                    self.now = self.now.max(t);
                }
                None => self.abort("hang", "deadlock: every thread is blocked and nothing else can happen"),
            }
        };
        let mut cands = cands;
        if cands.len() > 1 && cands[0] == m && self.edges - self.switched_at > 60_000 {
            // no scheduler lets one of several threads run for ever
            cands.remove(0);
        }
        let idx = if cands.len() == 1 {
            0
        } else {
            let stay = cands[0] == m;
            let n = cands.len() as u32;
            let v = if self.kn.pct {
                let pr: Vec<u32> = cands.iter().map(|&i| self.th[i].prio).collect();
                let best = pr.iter().enumerate().max_by_key(|(i, p)| (**p, u32::MAX - *i as u32)).unwrap().0 as u32;
                let p = self.kn.p_switch;
                let mut demote = false;
                let v = self.tape.draw(|r| {
                    if r.chance(p) {
                        demote = true;
                        r.below(n)
                    } else {
                        best
                    }
                });
                if demote {
                    let low = self.th.iter().map(|t| t.prio).min().unwrap_or(1).saturating_sub(1);
                    self.th[cands[best as usize]].prio = low;
                }
                v
            } else {
                let p = self.kn.p_switch;
                self.tape.draw(|r| {
                    if stay && !preempt {
                        if r.chance(p) {
                            1 + r.below(n - 1)
                        } else {
                            0
                        }
                    } else if stay {
                        1 + r.below(n - 1)
                    } else {
                        r.below(n)
                    }
                })
            };
            (v % n) as usize
        };
        let next = cands[idx];
        if next != m {
            self.switched_at = self.edges;
            if cands[0] == m && !preempt {
                self.bump(F::Switch);
            }
            self.mix(next as u64 + 1);
            if self.trace {
                self.tlog(format!("-> T{} {}", next, self.th[next].name));
            }
        }
        next
    }
    pub fn new_thread(&mut self, name: &str, actor: bool) -> usize {
        let prio = if self.kn.pct { self.tape.draw(|r| 1000 + r.below(1000)) } else { 1000 };
        self.th.push(Th {
            run: Box::new(AtomicU32::new(0)),
            st: St::Ready,
            wake: Wake::None,
            deadline: None,
            yielded: false,
            yielded_at: 0,
            sigs: VecDeque::new(),
            pthread: 0,
            name: name.to_string(),
            actor,
            prio,
            blocked_ns: 0,
            blocked_on: vec![],
            created_at: self.now,
            spawn_err: false,
        });
        self.th.len() - 1
    }
    pub fn lookup(&self, fd: i32) -> Option<usize> {
        if fd < 0 {
            return None;
        }
        self.fds.get(fd as usize).copied().flatten()
    }
    pub fn new_ofd(&mut self, obj: Obj, path: &str) -> usize {
        match obj {
            Obj::PipeR(p) => self.pipes[p].readers += 1,
            Obj::PipeW(p) => self.pipes[p].writers += 1,
            _ => {}
        }
        self.ofds.push(Ofd { obj, refs: 0, pos: 0, append: false, path: path.to_string() });
        self.ofds.len() - 1
    }
    pub fn alloc_fd(&mut self, o: usize, min: usize) -> i32 {
        self.ofds[o].refs += 1;
        while self.fds.len() < min {
            self.fds.push(None)
        }
        for i in min..self.fds.len() {
            if self.fds[i].is_none() {
                self.fds[i] = Some(o);
                return i as i32;
            }
        }
        self.fds.push(Some(o));
        self.fds.len() as i32 - 1
    }
    pub fn drop_ref(&mut self, o: usize) {
        self.ofds[o].refs -= 1;
        if self.ofds[o].refs == 0 {
            match self.ofds[o].obj {
                Obj::PipeR(p) => {
                    self.pipes[p].readers -= 1;
                    self.wake_all(Wait::PipeW(p));
                }
                Obj::PipeW(p) => {
                    self.pipes[p].writers -= 1;
                    self.wake_all(Wait::PipeR(p));
                }
                _ => {}
            }
        }
    }
    pub fn close_fd(&mut self, fd: i32) -> bool {
        match self.lookup(fd) {
            None => false,
            Some(o) => {
                self.fds[fd as usize] = None;
                self.drop_ref(o);
                true
            }
        }
    }
    pub fn open_fds(&self) -> usize {
        self.fds.iter().filter(|x| x.is_some()).count()
    }
    pub fn live_threads(&self, prefix: &str) -> Vec<usize> {
        (0..self.th.len()).filter(|&i| self.th[i].st != St::Exited && self.th[i].name.starts_with(prefix)).collect()
    }
}

// ---------------------------------------------------------------- for harness

/// Blocks the caller until every other thread is idle: all due events have
/// happened, all actors have finished, and no timer is due within `near` ns.
pub fn settle(near: u64) {
    let m = me() as usize;
    block(m, Wait::Idle(near), None);
}
/// how much of this time the process was not stopped
pub fn awake(t0: u64, t1: u64) -> u64 {
    let stopped: u64 = k().stop_log.iter().map(|(a, b)| t1.min(*b).saturating_sub(t0.max(*a))).sum();
    (t1 - t0).saturating_sub(stopped)
}
pub fn now() -> u64 {
    k().now
}
/// lets simulated time pass (the caller sleeps)
pub fn sleep(ns: u64) {
    let m = me() as usize;
    let d = k().now + ns;
    while k().now < d {
        block(m, Wait::Sleep, Some(d));
    }
}
/// position in the total order of harness-visible events
pub fn stamp() -> u64 {
    k().order += 1;
    k().order
}
pub fn spawn_actor<T: Send + 'static>(name: &str, f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    k().spawn_actor = true;
    std::thread::Builder::new().name(name.to_string()).spawn(f).unwrap()
}
