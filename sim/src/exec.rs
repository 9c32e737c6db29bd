//! Runs one simulated execution in this process: sets up the simulated
//! kernel, turns the calling thread into simulated thread 0, and collects the
//! result.
use crate::kernel::*;
use crate::model::*;
use crate::rng::Tape;
use crate::vt::{Kind, Vt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// violations of the property being checked
    pub viol: Vec<String>,
    /// why the run says nothing about the property
    pub inconclusive: Option<String>,
    pub hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub faults: Vec<u64>,
    pub plan: String,
    pub trace: Vec<String>,
    pub gtape: Vec<u32>,
    pub gspans: Vec<(u32, u32)>,
    pub stape: Vec<u32>,
    pub visited: u64,
    pub info: Vec<(String, u64)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RK {
    Blocking,
    Async,
    Cancel(u32),
    Try,
    Timeout(u64),
    Deadline(i64),
    /// read_timeout with the longest timeout there is
    Longest,
    /// `read_async` in a real Tokio runtime, for at most this many us
    Tokio(Option<u64>),
}
#[derive(Clone, Debug)]
pub struct ReadRec {
    pub kind: RK,
    pub t0: u64,
    pub t1: u64,
    pub got: Option<Resp>,
    pub idx: usize,
}
#[derive(Clone, Debug)]
pub struct ProbeRec {
    pub what: String,
    pub raw: bool,
    pub visible: bool,
    pub wrap: bool,
    pub attr_default: bool,
    pub col: usize,
    pub below_blank: bool,
    pub hook_ours: bool,
    pub thread: i32,
}
#[derive(Clone, Debug)]
pub struct OpRec {
    pub inv: u64,
    pub ret: u64,
    pub t0: u64,
    pub t1: u64,
    pub blocked: u64,
    pub nresp: usize,
    /// the call panicked
    pub failed: bool,
}
#[derive(Default)]
pub struct Rec {
    pub resp: Vec<Resp>,
    pub reads: Vec<ReadRec>,
    pub calls: Vec<(CompCall, u64)>,
    pub susp: Vec<u32>,
    pub probes: Vec<ProbeRec>,
    pub sent_at: std::collections::BTreeMap<u32, u64>,
    pub notes: Vec<String>,
    /// writes to stderr that failed
    pub err_fail: Vec<String>,
}
static mut REC: *mut Rec = std::ptr::null_mut();
pub fn rec() -> &'static mut Rec {
    unsafe { &mut *REC }
}
thread_local! {
    /// the calling thread runs the application's code in a suspended Liso
    pub static IN_CLOSURE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// the calling thread writes to stderr for the application
    pub static APP_ERR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// the calling thread expects that what it does may panic
    pub static EXPECT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// does something that may legitimately panic; None if it did
pub fn may_panic<T>(f: impl FnOnce() -> T) -> Option<T> {
    let old = EXPECT.with(|e| e.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    EXPECT.with(|e| e.set(old));
    r
}
pub static HOOK: AtomicU64 = AtomicU64::new(0);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        HOOK.fetch_add(1, Ordering::Relaxed);
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        crate::crash::on_panic(&m);
        if me() >= 0 && !m.starts_with("probe") && !m.starts_with("expected") && !EXPECT.with(|e| e.get()) {
            let n = k().th[me() as usize].name.clone();
            k().panics.push(format!("thread {:?} panicked: {} at {}", n, m, i.location().map(|l| l.to_string()).unwrap_or_default()));
        }
    }));
}
/// is the panic hook the one the harness (the application) installed?
pub fn probe_hook() -> bool {
    let a = HOOK.load(Ordering::Relaxed);
    let _ = catch_unwind(AssertUnwindSafe(|| panic!("probe")));
    HOOK.load(Ordering::Relaxed) == a + 1
}
pub fn probe(what: &str, def: crate::vt::Attr) {
    let hook = probe_hook();
    let t = &k().tty;
    let row = t.vt.abs_row();
    let blank = t.vt.rows[row..].iter().enumerate().all(|(i, r)| r.iter().enumerate().all(|(j, c)| (i == 0 && j < t.vt.cx) || c.ch == ' '));
    rec().probes.push(ProbeRec {
        what: what.to_string(),
        raw: t.raw(),
        visible: t.vt.visible,
        wrap: t.vt.wrap,
        attr_default: t.vt.cur == def,
        col: t.vt.cx,
        below_blank: blank,
        hook_ours: hook,
        thread: me(),
    });
}

pub fn conv(r: liso::Response) -> Resp {
    use liso::Response as R;
    match r {
        R::Input(s) => Resp::Input(s),
        R::Dead => Resp::Dead,
        R::Quit => Resp::Quit,
        R::Discarded(s) => Resp::Discarded(s),
        R::Finish => Resp::Finish,
        R::Info => Resp::Info,
        R::Break => Resp::Break,
        R::Escape => Resp::Escape,
        R::Swap => Resp::Swap,
        R::Custom(b) => Resp::Custom(b.downcast_ref::<u32>().copied().unwrap_or(u32::MAX)),
        R::Unknown(x) => Resp::Unknown(x),
        _ => Resp::Unknown(255),
    }
}

struct ThreadWaker(std::thread::Thread);
impl std::task::Wake for ThreadWaker {
    fn wake(self: std::sync::Arc<Self>) {
        self.0.unpark()
    }
}
/// a minimal executor
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w = std::sync::Arc::new(ThreadWaker(std::thread::current())).into();
    let mut cx = std::task::Context::from_waker(&w);
    loop {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        std::thread::park();
    }
}
pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
}
/// polls a few times with pauses, then drops the future
pub fn poll_some<F: std::future::Future>(f: F, n: u32) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    let w = std::sync::Arc::new(ThreadWaker(std::thread::current())).into();
    let mut cx = std::task::Context::from_waker(&w);
    for i in 0..n {
        if i > 0 {
            crate::kernel::sleep(300_000);
        }
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
    }
    None
}
pub fn do_read(io: &mut liso::InputOutput, kind: &RK) -> Option<Resp> {
    let t0 = now();
    let idx = rec().resp.len();
    if k().trace {
        k().tlog(format!("calls read {:?}", kind));
    }
    let r = match kind {
        #[allow(deprecated)]
        RK::Blocking if idx % 3 == 1 => Some(io.blocking_read()),
        RK::Blocking => Some(io.read_blocking()),
        #[allow(deprecated)]
        RK::Async if idx % 3 == 1 => Some(block_on(io.read())),
        RK::Async => Some(block_on(io.read_async())),
        RK::Cancel(n) => poll_some(io.read_async(), *n),
        RK::Try => io.try_read(),
        RK::Timeout(us) => io.read_timeout(std::time::Duration::from_micros(*us)),
        RK::Deadline(us) => {
            let n = std::time::Instant::now();
            let d = if *us >= 0 { n + std::time::Duration::from_micros(*us as u64) } else { n.checked_sub(std::time::Duration::from_micros(-*us as u64)).unwrap_or(n) };
            io.read_deadline(d)
        }
        RK::Longest => io.read_timeout(std::time::Duration::MAX),
        RK::Tokio(None) => Some(runtime().block_on(io.read_async())),
        RK::Tokio(Some(us)) => runtime().block_on(async { tokio::time::timeout(std::time::Duration::from_micros(*us), io.read_async()).await.ok() }),
    };
    let got = r.map(conv);
    if k().trace {
        k().tlog(format!("read {:?} returns {:?}", kind, got));
    }
    let t1 = now();
    rec().reads.push(ReadRec { kind: kind.clone(), t0, t1, got: got.clone(), idx });
    if let Some(g) = &got {
        if *g != Resp::Dead {
            rec().resp.push(g.clone());
        }
    }
    got
}

// ------------------------------------------------------------- running a run

pub struct Setup {
    pub cfg: TermCfg,
    pub bce: bool,
    pub prefill: usize,
    /// 1: the terminal's size is reported as zero; 2: it cannot be determined
    pub size: u8,
    pub term: &'static str,
    /// stdin, stdout are the terminal; otherwise pipes
    pub tty: bool,
    pub stdin_tty: bool,
    pub stdout_tty: bool,
    pub stderr_tty: bool,
    pub kn: Knobs,
}
impl Setup {
    pub fn tty(cfg: TermCfg, kn: Knobs) -> Setup {
        Setup { cfg, bce: true, prefill: 0, size: 0, term: if cfg.vt52 { "vt52" } else { "xterm" }, tty: true, stdin_tty: true, stdout_tty: true, stderr_tty: false, kn }
    }
}

static mut ABORT: Option<(String, String)> = None;
static mut FINISH: Option<fn(Option<(String, String)>) -> !> = None;

fn on_abort(kind: &str, msg: &str) -> ! {
    SELF.with(|s| s.set(-1));
    unsafe {
        #[allow(static_mut_refs)]
        let f = FINISH.take().expect("abort twice");
        ABORT = Some((kind.to_string(), msg.to_string()));
        f(Some((kind.to_string(), msg.to_string())))
    }
}

pub const STDIN_PIPE: usize = 0;
pub const OUT_SINK: usize = 0;
pub const ERR_SINK: usize = 1;

/// Creates the kernel and makes the caller simulated thread 0. `fin` ends the
/// run (it does not return) and is also called when the run is aborted.
pub fn begin(s: &Setup, stape: Tape, trace: bool, fin: fn(Option<(String, String)>) -> !) {
    unsafe {
        FINISH = Some(fin);
        std::env::set_var("TERM", s.term);
        std::env::remove_var("LISO_CROSSTERM_INPUT");
        std::env::remove_var("COLUMNS");
        std::env::remove_var("LINES");
        std::env::remove_var("NO_COLOR");
        if s.cfg.wob {
            std::env::set_var("ATARI_WHITE_ON_BLACK", "1");
        } else {
            std::env::remove_var("ATARI_WHITE_ON_BLACK");
        }
        let vt = Vt::new(if s.cfg.vt52 { Kind::Vt52 } else { Kind::Ansi }, s.cfg.w, s.cfg.h, s.bce, s.cfg.def(), s.cfg.ncolors);
        let mut kk = Box::new(Kernel::new(stape, s.kn.clone(), vt, (s.cfg.w as u16, s.cfg.h as u16), on_abort));
        kk.trace = trace;
        match s.size {
            1 => kk.tty.ws = (0, 0),
            2 => kk.tty.ioctl_err = true,
            _ => {}
        }
        kk.fs.writable = true;
        for i in 0..s.prefill {
            kk.tty.vt.feed(format!("before {}\r\n", i).as_bytes());
        }
        kk.pipes.push(Pipe { ext_writer: true, ..Default::default() });
        kk.sinks.push(Sink::default());
        kk.sinks.push(Sink::default());
        let t = kk.new_ofd(Obj::Tty, "tty");
        let pi = kk.new_ofd(Obj::PipeR(STDIN_PIPE), "stdin");
        let so = kk.new_ofd(Obj::Sink(OUT_SINK), "stdout");
        let se = kk.new_ofd(Obj::Sink(ERR_SINK), "stderr");
        kk.alloc_fd(if s.stdin_tty { t } else { pi }, 0);
        kk.alloc_fd(if s.stdout_tty { t } else { so }, 0);
        kk.alloc_fd(if s.stderr_tty { t } else { se }, 0);
        // the harness may look at them whatever the program closes
        for o in 0..4 {
            kk.ofds[o].refs += 1;
        }
        KP = Box::into_raw(kk);
        REC = Box::into_raw(Box::new(Rec::default()));
        let m = k().new_thread("app main", false);
        k().th[m].pthread = libc::pthread_self() as usize;
        install_hook();
        SELF.with(|c| c.set(m as i32));
        k().rearm();
    }
}
/// ends the simulation normally
pub fn end() -> ! {
    SELF.with(|s| s.set(-1));
    unsafe {
        #[allow(static_mut_refs)]
        let f = FINISH.take().expect("end twice");
        f(None)
    }
}
/// a panic in the harness's own code decides nothing
pub fn harness_panic() -> Option<String> {
    k().panics.iter().find(|x| x.contains(" at src/")).map(|x| format!("harness: {}", x))
}
/// panics of the program under test (not the ones the harness expects)
pub fn liso_panics() -> Vec<String> {
    let kk = k();
    let mut v = kk.panics.clone();
    for (t, s) in &kk.errout {
        if s.contains("expected crash") {
            continue;
        }
        if s.contains("panicked at") || s.contains("INTERNAL LISO ERROR") {
            let n = if *t >= 0 { kk.th[*t as usize].name.clone() } else { String::new() };
            v.push(format!("thread {:?}: {}", n, s.trim()));
        }
    }
    v
}
