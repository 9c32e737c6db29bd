//! The main scenario: an application with several threads, a user at the
//! keyboard and a terminal, in phases. At the end of each phase everything has
//! become idle and what can be observed is compared with the model.
use crate::exec::*;
use crate::gen::*;
use crate::kernel::*;
use crate::model::*;
use crate::rng::Tape;
use crate::vt::Vt;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum Op {
    Out { l: Ln, how: u8 },
    Status(Option<Ln>),
    Prompt { l: Ln, allowed: bool, clear: bool },
    Notice(Ln, u64),
    Bell,
    Custom(u32, bool),
    Suspend { id: u32, lines: Vec<String>, nap: u64, inner: Vec<Op> },
    SetComp(Option<usize>),
    Sleep(u64),
    Read(RK),
    Swap(Hist),
    Peek,
    /// writes to stderr
    Err(Vec<u8>),
    /// many requests at once: lines or (true) custom values, numbered from
    Burst { n: u32, custom: bool, from: u32 },
}
#[derive(Clone, Debug, Default)]
pub struct OpMix {
    pub out: u32,
    pub status: u32,
    pub prompt: u32,
    pub notice: u32,
    pub bell: u32,
    pub custom: u32,
    pub suspend: u32,
    pub comp: u32,
    pub sleep: u32,
    pub read: u32,
    pub swap: u32,
    pub peek: u32,
    pub err: u32,
    pub burst: u32,
}
#[derive(Clone, Debug)]
pub struct Mix {
    pub a: Aspects,
    pub ops: OpMix,
    pub keys: KeyMix,
    pub line: LineMix,
    pub threads: u32,
    pub phases: u32,
    pub max_ops: usize,
    pub op_p: f64,
    pub max_keys: usize,
    pub key_p: f64,
    pub cut: f64,
    pub burst: f64,
    pub vt52: f64,
    pub narrow: f64,
    pub tty_stall: f64,
    pub knobs: (f64, f64, f64),
    /// probability that a phase's keys end with Return
    pub ret: f64,
    pub timing: bool,
    pub block: bool,
    pub probes: bool,
    /// what a suspended closure does with Liso itself
    pub inner: f64,
    /// several threads swap and look at the history
    pub shared: f64,
}
pub struct Phase {
    /// threads[0] is the application's main thread
    pub threads: Vec<Vec<Op>>,
    pub chunks: Vec<Chunk>,
    pub stall: Option<(u64, u64)>,
    pub after: u64,
    /// the main thread reads nothing; other threads use the InputOutput too
    pub shared: bool,
}
pub struct Plan {
    pub prop: String,
    pub mix: Mix,
    pub tc: TermChoice,
    pub kn: Knobs,
    pub comps: Vec<CompPlan>,
    pub phases: Vec<Phase>,
    pub echo_off: bool,
    pub clockjump: u64,
}

struct G<'a> {
    m: &'a Mix,
    cfg: TermCfg,
    tag: u32,
    custom: u32,
    susp: u32,
    ncomp: usize,
    live_budget: usize,
}
impl<'a> G<'a> {
    fn op(&mut self, t: &mut Tape, main: bool, shared: bool, balance: &mut i32, pool: &mut Vec<Ln>) -> Op {
        let o = &self.m.ops;
        let x = main as u32;
        let y = (main || shared) as u32;
        let x = if shared { 0 } else { x };
        let w = self.cfg.w;
        match t.weighted(&[o.out, o.status, o.prompt, o.notice, o.bell, o.custom, o.suspend, o.comp, o.sleep, o.read * x, o.swap * y, o.peek * y, o.err, o.burst]) {
            0 => {
                self.tag += 1;
                let tag = format!("#{}", self.tag);
                let how = t.weighted(&[4, 1, 2, 1, 1]) as u8;
                let l = if how == 2 || how == 4 { gen_words(t, &self.m.line, w, &tag) } else { gen_line(t, &self.m.line, w, &tag, 400) };
                Op::Out { l, how }
            }
            1 => {
                if t.chance(0.25) {
                    Op::Status(None)
                } else {
                    Op::Status(Some(self.small(t, "s", pool)))
                }
            }
            2 => {
                let l = if t.chance(0.15) { Ln::plain("") } else { self.small(t, ">", pool) };
                let allowed = !t.chance(0.3);
                let clear = t.chance(0.3);
                Op::Prompt { l, allowed, clear }
            }
            3 => {
                let l = self.small(t, "!", pool);
                let d = *t.pick(&[500 * MS, 100 * MS, 1000 * MS, 0, 5000 * MS, 200 * MS, 30 * MS, 3_600_000 * MS, u64::MAX]);
                let d = if t.chance(0.03) { *t.pick(&[30 * DAY, 60 * DAY, 400 * DAY, 40 * DAY, 25 * DAY]) } else { d };
                Op::Notice(l, d)
            }
            4 => Op::Bell,
            5 => {
                self.custom += 1;
                if main {
                    *balance += 1
                }
                Op::Custom(self.custom, t.chance(0.3))
            }
            6 => {
                self.susp += 1;
                let n = t.int(0, 2);
                let lines = (0..n)
                    .map(|_| {
                        self.tag += 1;
                        format!("#{} direct", self.tag)
                    })
                    .collect();
                let nap = *t.pick(&[0u64, 0, 1 * MS, 20 * MS]);
                let id = self.susp;
                let mut inner = vec![];
                if t.chance(self.m.inner) {
                    for _ in 0..t.int(1, 2) {
                        inner.push(match t.below(5) {
                            0 => Op::Bell,
                            1 => Op::Status(Some(self.small(t, "s", pool))),
                            2 => {
                                self.custom += 1;
                                Op::Custom(self.custom, false)
                            }
                            _ => {
                                self.tag += 1;
                                let tag = format!("#{}", self.tag);
                                Op::Out { l: gen_line(t, &self.m.line, w, &tag, 60), how: 0 }
                            }
                        });
                    }
                }
                Op::Suspend { id, lines, nap, inner }
            }
            7 => {
                if self.ncomp == 0 || t.chance(0.2) {
                    Op::SetComp(None)
                } else {
                    Op::SetComp(Some(t.below(self.ncomp as u32) as usize))
                }
            }
            8 if t.chance(0.03) => Op::Sleep(*t.pick(&[70_000 * MS, 3_700_000 * MS, 90_000_000 * MS, 35 * DAY, 50 * DAY])),
            8 => Op::Sleep(*t.pick(&[10_000u64, 300_000, 2 * MS, 20 * MS, 110 * MS, 600 * MS])),
            9 => {
                *balance -= 1;
                let kinds = if *balance >= 0 { 8 } else { 5 };
                Op::Read(match t.below(kinds) {
                    0 => RK::Try,
                    1 => RK::Timeout(*t.pick(&[0u64, 1000, 50_000, 300_000, 10, 3_000_000])),
                    2 => RK::Deadline(*t.pick(&[0i64, 1000, 30_000, 200_000, -1000, -100_000])),
                    3 => RK::Cancel(*t.pick(&[1u32, 2, 4])),
                    4 => RK::Tokio(Some(*t.pick(&[1000u64, 50_000, 300_000]))),
                    5 => RK::Blocking,
                    6 => t.pick(&[RK::Tokio(None), RK::Longest]).clone(),
                    _ => RK::Async,
                })
            }
            10 => {
                let n = t.int(0, 4);
                let lines = (0..n).map(|_| t.pick(&["one", "two words", "", "abc", "\u{e9}\u{4e2d}", "x"]).to_string()).collect();
                Op::Swap(Hist { lines, limit: *t.pick(&[Some(100), None, Some(1), Some(2), Some(3)]), strip: !t.chance(0.4), err: t.chance(0.2) })
            }
            11 => Op::Peek,
            12 => Op::Err(self.err(t)),
            _ => {
                let n = *t.pick(&[40u32, 140, 300, 1100]);
                let custom = t.chance(0.4);
                let from = if custom { self.custom } else { self.tag };
                if custom {
                    self.custom += n
                } else {
                    self.tag += n
                }
                Op::Burst { n, custom, from: from + 1 }
            }
        }
    }
    /// a piece of what goes to stderr
    fn err(&mut self, t: &mut Tape) -> Vec<u8> {
        let w = self.cfg.w;
        let n = *t.pick(&[1usize, 1, 0, 2, 3]);
        let mut b = vec![];
        for _ in 0..n {
            self.tag += 1;
            let tag = if t.chance(0.1) { String::new() } else { format!("e{}", self.tag) };
            let m = LineMix { style: 0.0, nl: 0.0, ..self.m.line.clone() };
            let len = if t.chance(0.15) { *t.pick(&[125usize, 127, 128, 129, 256, 300]) } else { gen_len(t, w, m.long * 0.7, tag.len()) };
            let l = gen_line(t, &m, w, &tag, len);
            let l = l.text();
            b.extend(l.as_bytes());
            if t.chance(0.08) {
                b.extend(*t.pick(&[&b"\xff"[..], b"\xe4\xb8", b"\xc3(", b"\x80x", b"\xf0\x9f\x99"]));
            }
            b.extend(*t.pick(&[&b"\n"[..], b"\n", b"\n", b"\r\n", b"\r\r\n", b"\n\n"]));
        }
        if t.chance(0.35) {
            // the line goes on later
            self.tag += 1;
            b.extend(format!("part{}", self.tag).as_bytes());
            if t.chance(0.2) {
                b.extend(&"\u{4e2d}".as_bytes()[..t.int(1, 2) as usize]);
            }
        } else if t.chance(0.3) {
            let c = t.below(b.len() as u32 + 1) as usize;
            b.truncate(c);
        }
        b
    }
    /// a line for the live area; often a variation of an earlier one
    fn small(&mut self, t: &mut Tape, p: &str, pool: &mut Vec<Ln>) -> Ln {
        if !pool.is_empty() && t.chance(0.4) {
            let l = t.pick(&pool[..]).clone();
            if t.chance(0.5) {
                return l;
            }
            // change a character or the attributes of a part
            let mut parts = l.parts.clone();
            let i = t.below(parts.len() as u32) as usize;
            match t.below(4) {
                0 => {
                    if t.chance(self.m.line.style) {
                        parts[i].0 = gen_attr(t)
                    }
                }
                1 => {
                    parts[i].1.pop();
                }
                2 => {
                    let mut c: Vec<char> = parts[i].1.chars().collect();
                    if !c.is_empty() {
                        let j = t.below(c.len() as u32) as usize;
                        c[j] = if t.chance(self.m.line.wide) { WIDE[0] } else { 'Z' };
                    }
                    parts[i].1 = c.into_iter().collect();
                }
                _ => parts[i].1.push('k'),
            }
            let l = Ln::new(parts);
            pool.push(l.clone());
            return l;
        }
        let l = gen_line(t, &self.m.line, self.cfg.w, p, self.live_budget);
        pool.push(l.clone());
        l
    }
}
pub fn gen(t: &mut Tape, prop: &str, m: &Mix) -> Plan {
    let tc = gen_term(t, m.vt52, m.narrow);
    let mut kn = gen_knobs(t, &KnobMix { stall: m.knobs.0, edges: m.knobs.1, reads: m.knobs.2 });
    kn.max_steps = 200_000;
    let stalls = kn.p_stall > 0.0;
    let comps: Vec<CompPlan> = if m.ops.comp > 0 {
        let n = t.int(1, 3);
        (0..n)
            .map(|i| CompPlan {
                id: i as u32 + 1,
                kind: *t.pick(&[
                    CompKind::InsertPresses,
                    CompKind::InsertOne,
                    CompKind::Nothing,
                    CompKind::InsertWide,
                    CompKind::ReplaceUpper,
                    CompKind::ReplaceClearAt0,
                    CompKind::InsertEmpty,
                    CompKind::ReplaceSame,
                ]),
                print: t.chance(0.3),
                bell: t.chance(0.2),
            })
            .collect()
    } else {
        vec![]
    };
    let mut g = G { m, cfg: tc.cfg, tag: 0, custom: 0, susp: 0, ncomp: comps.len(), live_budget: 0 };
    // the live area must fit on the screen: at most a third for each part
    g.live_budget = (tc.cfg.w * (tc.cfg.h / 4).saturating_sub(1)).clamp(4, 90);
    let mut pool = vec![];
    let np = t.int(1, m.phases as i64);
    let mut phases = vec![];
    for _ in 0..np {
        phases.push(t.span(|t| {
            let shared = m.shared > 0.0 && t.chance(m.shared);
            let nt = 1 + t.below(m.threads + 1 + shared as u32 * 2) as usize;
            let mut threads: Vec<Vec<Op>> = vec![vec![]; nt];
            let mut balance = 0;
            for i in (0..nt).rev() {
                let max = if i == 0 { m.max_ops } else { m.max_ops.min(6) };
                threads[i] = t.list(max, m.op_p, |t| g.op(t, i == 0, shared, &mut balance, &mut pool));
                if i > 0 {
                    balance += threads[i].iter().filter(|o| matches!(o, Op::Custom(..))).count() as i32;
                }
            }
            let mut keys = t.list(m.max_keys, m.key_p, |t| gen_key(t, &m.keys, tc.cfg.vt52));
            if m.key_p > 0.0 && t.chance(m.ret) {
                keys.push(vec![b'\r']);
            }
            // while stdin isn't being read, time passes unnoticed
            let stalls = stalls || keys.iter().any(|k| k.contains(&0x1a)) || threads.iter().flatten().any(|o| matches!(o, Op::Suspend { .. }));
            let mut chunks = gen_chunks(t, keys, m.cut, stalls, m.burst);
            // (a lone Escape must not be overtaken)
            let esc_last = stalls && chunks.last().is_some_and(|c| c.b.last() == Some(&0x1b));
            if m.key_p > 0.0 && !esc_last && t.chance(0.01) {
                chunks.extend(gen_paste(t, &m.keys, &tc.cfg));
            }
            let stall = if t.chance(m.tty_stall) { Some((*t.pick(&[0u64, 50_000, 1 * MS, 10 * MS]), *t.pick(&[50 * MS, 500 * MS, 5000 * MS, 2 * MS]))) } else { None };
            let after = *t.pick(&[0u64, 0, 150 * MS, 600 * MS, 1200 * MS, 6000 * MS]);
            Phase { threads, chunks, stall, after, shared }
        }));
    }
    let echo_off = m.ops.suspend > 0 || m.keys.stop > 0;
    let clockjump = *t.pick(&[0u64, 100 * MS, 10_000 * MS]);
    Plan { prop: prop.to_string(), mix: m.clone(), tc, kn, comps, phases, echo_off, clockjump }
}
impl Plan {
    pub fn show(&self) -> String {
        let mut s = format!(
            "{}x{} terminal {:?} {:?} bce={} prefill={}{}\nschedule: {:?}\n",
            self.tc.cfg.w, self.tc.cfg.h, self.tc.term, self.tc.cfg, self.tc.bce, self.tc.prefill, ["", ", its size reported as zero", ", its size unknown"][self.tc.size as usize], self.kn
        );
        for c in &self.comps {
            s.push_str(&format!("completor {:?}\n", c));
        }
        for (i, p) in self.phases.iter().enumerate() {
            s.push_str(&format!("phase {}:\n", i));
            for (j, th) in p.threads.iter().enumerate() {
                for o in th {
                    s.push_str(&format!("  thread {}: {}\n", j, show_op(o)));
                }
            }
            for c in &p.chunks {
                s.push_str(&format!("  after {:.1}ms the terminal sends {:?}\n", c.gap as f64 / 1e6, String::from_utf8_lossy(&c.b)));
            }
            if let Some((a, d)) = p.stall {
                s.push_str(&format!("  terminal stalls after {:.2}ms for {}ms\n", a as f64 / 1e6, d / MS));
            }
            if p.after > 0 {
                s.push_str(&format!("  then {}ms pass\n", p.after / MS));
            }
        }
        s
    }
}
fn show_ln(l: &Ln) -> String {
    let p: Vec<String> = l
        .parts
        .iter()
        .map(|(a, s)| if *a == MAttr::default() { format!("{:?}", s) } else { format!("[style {} fg {} bg {}]{:?}", a.st, a.fg, a.bg, s) })
        .collect();
    p.join("+")
}
pub fn show_op(o: &Op) -> String {
    match o {
        Op::Out { l, how } => format!("{} {}", ["println", "echoln", "wrapln", "global println!", "global wrapln!"][*how as usize], show_ln(l)),
        Op::Status(Some(l)) => format!("status {}", show_ln(l)),
        Op::Status(None) => "remove status".into(),
        Op::Prompt { l, allowed, clear } => format!("prompt {} input_allowed={} clear_input={}", show_ln(l), allowed, clear),
        Op::Notice(l, d) => format!("notice {} for {}ms", show_ln(l), d / MS),
        Op::Bell => "bell".into(),
        Op::Custom(n, b) => format!("send_custom{}({})", if *b { "_box" } else { "" }, n),
        Op::Suspend { id, lines, nap, inner } => {
            let inner: Vec<String> = inner.iter().map(show_op).collect();
            format!("suspend_and_run {} calling [{}] printing {:?} taking {}ms", id, inner.join("; "), lines, nap / MS)
        }
        Op::Burst { n, custom, from } => format!("{} times {} from {}", n, if *custom { "send_custom" } else { "println" }, from),
        Op::SetComp(c) => format!("set_completor {:?}", c),
        Op::Sleep(n) => format!("sleep {}us", n / 1000),
        Op::Read(r) => format!("read {:?}", r),
        Op::Swap(h) => format!("swap_history {:?}", h),
        Op::Peek => "read_history".into(),
        Op::Err(b) => format!("write to stderr {:?}", String::from_utf8_lossy(b)),
    }
}

// ---------------------------------------------------------------- execution
struct HComp {
    plan: &'static CompPlan,
}
impl liso::Completor for HComp {
    fn complete(&mut self, output: &liso::Output, input: &str, cursor: usize, n: std::num::NonZeroU32) -> Option<liso::Completion> {
        let n = n.get();
        if self.plan.print {
            output.println(self.plan.line(input, n));
        }
        if self.plan.bell {
            output.bell();
        }
        let s = stamp();
        rec().calls.push((CompCall { id: self.plan.id, input: input.to_string(), cursor, presses: n }, s));
        match self.plan.answer(input, cursor, n) {
            CompAns::None => None,
            CompAns::Insert(text) => Some(liso::Completion::InsertAtCursor { text }),
            CompAns::Replace(new_line, new_cursor) => Some(liso::Completion::ReplaceWholeLine { new_line, new_cursor }),
        }
    }
}
pub struct Snap {
    pub obs: Obs,
    pub nchunks: usize,
    /// writes to stderr so far
    pub nerr: usize,
    pub t0: u64,
}
#[derive(Default)]
pub struct Run {
    pub recs: Vec<Vec<Vec<OpRec>>>,
    /// thread, operation, what it got
    pub swaps: Vec<Vec<(usize, usize, Vec<String>)>>,
    /// what suspended closures did: phase, operation
    pub inner: Vec<(usize, &'static Op, OpRec)>,
    pub snaps: Vec<Snap>,
    pub row0: usize,
    pub dead: bool,
}
static mut PLAN: Option<&'static Plan> = None;
static mut RUN: Option<&'static mut Run> = None;
pub fn plan() -> &'static Plan {
    unsafe { PLAN.unwrap() }
}
#[allow(static_mut_refs)]
pub fn run_state() -> &'static mut Run {
    unsafe { RUN.as_mut().unwrap() }
}
pub fn as_dur(ns: u64) -> Duration {
    if ns == u64::MAX {
        Duration::MAX
    } else {
        Duration::from_nanos(ns)
    }
}
pub fn do_op(out: &liso::Output, op: &'static Op) {
    let def = plan().tc.cfg.def();
    match op {
        Op::Out { l, how } => match how {
            0 => out.println(l.build()),
            1 => out.echoln(l.build()),
            2 => out.wrapln(l.build()),
            #[cfg(not(feature = "noglobal"))]
            3 => liso::output().println(l.build()),
            #[cfg(not(feature = "noglobal"))]
            4 => liso::output().wrapln(l.build()),
            #[cfg(feature = "noglobal")]
            3 => out.println(l.build()),
            _ => out.wrapln(l.build()),
        },
        Op::Status(Some(l)) => out.status(Some(l.build())),
        Op::Status(None) => out.remove_status(),
        Op::Prompt { l, allowed, clear } if l.text().is_empty() => out.remove_prompt(*allowed, *clear),
        Op::Prompt { l, allowed, clear } => out.prompt(l.build(), *allowed, *clear),
        Op::Notice(l, d) => out.notice(l.build(), as_dur(*d)),
        Op::Bell => out.bell(),
        Op::Custom(n, b) => {
            if *b {
                out.send_custom_box(Box::new(*n))
            } else {
                out.send_custom(*n)
            }
            rec().sent_at.insert(*n, now());
        }
        Op::Suspend { id, lines, nap, inner } => {
            let o2 = if inner.is_empty() { None } else { Some(out.clone_sender()) };
            out.suspend_and_run(move || {
            probe(&format!("suspend_and_run {}", id), def);
            for op in inner {
                let pi = run_state().snaps.len();
                let (t0, inv) = (now(), stamp());
                let nresp = rec().resp.len();
                do_op(o2.as_ref().unwrap(), op);
                let r = OpRec { inv, ret: stamp(), t0, t1: now(), blocked: 0, nresp, failed: false };
                run_state().inner.push((pi, op, r));
            }
            if *nap > 0 {
                sleep(*nap);
            }
            IN_CLOSURE.with(|e| e.set(true));
            for l in lines {
                use std::io::Write;
                let _ = writeln!(std::io::stdout(), "{}", l);
            }
            IN_CLOSURE.with(|e| e.set(false));
            rec().susp.push(*id);
        })},
        Op::SetComp(c) => out.set_completor(c.map(|c| Box::new(HComp { plan: &plan().comps[c] }) as Box<dyn liso::Completor>)),
        Op::Sleep(n) => sleep(*n),
        Op::Err(b) => write_err(b),
        Op::Burst { n, custom, from } => {
            for i in *from..*from + *n {
                if *custom {
                    out.send_custom(i)
                } else {
                    out.println(format!("#{}", i))
                }
            }
        }
        Op::Read(_) | Op::Swap(_) | Op::Peek => unreachable!(),
    }
}
/// writes to stderr
pub fn write_err(mut b: &[u8]) {
    while !b.is_empty() {
        APP_ERR.with(|e| e.set(true));
        let n = unsafe { libc::write(2, b.as_ptr() as *const libc::c_void, b.len()) };
        APP_ERR.with(|e| e.set(false));
        if n < 0 {
            let e = std::io::Error::last_os_error().raw_os_error().unwrap_or(0);
            if e == libc::EINTR {
                continue;
            }
            rec().err_fail.push(format!("writing {:?} to stderr failed with errno {}", String::from_utf8_lossy(b), e));
            return;
        }
        b = &b[n as usize..];
    }
}
/// the lines written to stderr: the line, when it was complete, and with which
/// write
pub fn err_lines() -> Vec<(L, u64, usize)> {
    let mut v = vec![];
    let mut cur: Vec<u8> = vec![];
    for (i, (at, _, b)) in k().err_log.iter().enumerate() {
        for c in b {
            if *c == b'\n' {
                let mut s = String::from_utf8_lossy(&std::mem::take(&mut cur)).to_string();
                if s.ends_with('\r') {
                    s.pop();
                }
                let red = MAttr { st: 0, fg: 2, bg: 0 };
                let l = Ln::new(vec![(MAttr { st: crate::vt::BOLD, ..red }, "E: ".into()), (red, s)]);
                v.push((l.m, *at, i));
            } else {
                cur.push(*c);
            }
        }
    }
    v
}
fn recorded(ph: usize, th: usize, op: &'static Op, f: impl FnOnce()) {
    let m = me() as usize;
    let (b0, t0, inv) = (k().th[m].blocked_ns, now(), stamp());
    let nresp = rec().resp.len();
    if k().trace {
        k().tlog(format!("calls {}", show_op(op)));
    }
    f();
    let r = OpRec { inv, ret: stamp(), t0, t1: now(), blocked: k().th[m].blocked_ns - b0, nresp, failed: false };
    if k().trace {
        k().tlog(format!("returned from {}", show_op(op)));
    }
    run_state().recs[ph][th].push(r);
}
struct Shared(*const liso::InputOutput);
unsafe impl Send for Shared where liso::InputOutput: Sync {}
/// swaps or looks at the history
fn on_history(pi: usize, ti: usize, op: &'static Op, io: &liso::InputOutput) {
    let mut old = vec![];
    let oi = run_state().recs[pi][ti].len();
    if let Op::Swap(h) = op {
        let new = make_history(h);
        recorded(pi, ti, op, || {
            let o = io.swap_history(new);
            old = o.get_lines().to_vec();
        });
    } else {
        recorded(pi, ti, op, || old = io.read_history().get_lines().to_vec());
    }
    run_state().swaps[pi].push((ti, oi, old));
}
pub fn make_history(h: &Hist) -> liso::History {
    let mut r = liso::History::new();
    r.set_strip_duplicates(false);
    r.set_limit(None);
    for l in &h.lines {
        let _ = r.add_line(l.clone());
    }
    r.set_limit(h.limit.and_then(std::num::NonZeroUsize::new));
    r.set_strip_duplicates(h.strip);
    if h.err {
        r.set_autosave_interval(std::num::NonZeroUsize::new(1));
        r.set_autosave_handler(Some(Box::new(|_| Err(std::io::Error::new(std::io::ErrorKind::Other, "disk on fire")))));
    }
    r
}
pub fn start(plan: Plan) {
    unsafe {
        PLAN = Some(Box::leak(Box::new(plan)));
        RUN = Some(Box::leak(Box::default()));
    }
}
fn on_stop() {
    probe("stopped by Control-Z", plan().tc.cfg.def());
}
pub fn execute() {
    let p = plan();
    let r = run_state();
    if p.echo_off {
        k().tty.termios.c_lflag &= !libc::ECHO;
        k().tty.orig = k().tty.termios;
    }
    k().on_stop = Some(on_stop);
    k().clockjump = p.clockjump;
    r.row0 = k().tty.vt.abs_row();
    let mut io = liso::InputOutput::new();
    settle(60 * MS);
    let mut sent = 0;
    for (pi, ph) in p.phases.iter().enumerate() {
        let t0 = now();
        let r = run_state();
        r.recs.push(vec![vec![]; ph.threads.len()]);
        r.swaps.push(vec![]);
        let mut at = t0;
        for c in &ph.chunks {
            at += c.gap;
            k().post(at, Event::TtyInput(c.b.clone()), true);
            sent += 1;
        }
        if let Some((a, d)) = ph.stall {
            k().post(t0 + a, Event::TtyStall(d), true);
        }
        let mut hs = vec![];
        // (whoever else uses the InputOutput has ended before it is used
        // exclusively again)
        let iop = Shared(&io as *const liso::InputOutput);
        for (ti, ops) in ph.threads.iter().enumerate().skip(1) {
            let out = io.clone_output();
            let iop = Shared(iop.0);
            hs.push(spawn_actor(&format!("app {}", ti), move || {
                let iop = iop;
                for op in ops {
                    match op {
                        Op::Swap(_) | Op::Peek => on_history(pi, ti, op, unsafe { &*iop.0 }),
                        op => recorded(pi, ti, op, || do_op(&out, op)),
                    }
                }
            }));
        }
        for (oi, op) in ph.threads[0].iter().enumerate() {
            match op {
                Op::Read(kind) => {
                    let mut dead = false;
                    let skip = run_state().dead;
                    recorded(pi, 0, op, || {
                        if !skip {
                            dead = do_read(&mut io, kind) == Some(Resp::Dead)
                        }
                    });
                    run_state().dead |= dead;
                }
                Op::Swap(_) | Op::Peek => on_history(pi, 0, op, &io),
                op => recorded(pi, 0, op, || do_op(&io, op)),
            }
        }
        for h in hs {
            let _ = h.join();
        }
        settle(60 * MS);
        if ph.after > 0 {
            sleep(ph.after);
            settle(60 * MS);
        }
        let hist = loop {
            let t = now();
            if !run_state().dead {
                while let Some(x) = do_read(&mut io, &RK::Try) {
                    if x == Resp::Dead {
                        run_state().dead = true;
                        break;
                    }
                }
            }
            let h = io.read_history().get_lines().to_vec();
            // (a stall meanwhile may have let something become due)
            if now() - t < 10 * MS {
                break h;
            }
            settle(60 * MS);
        };
        let kk = k();
        if kk.trace {
            for l in kk.tty.vt.dump() {
                kk.tlog(format!("screen: {}", l));
            }
        }
        run_state().snaps.push(Snap {
            obs: Obs { vt: kk.tty.vt.clone(), time: kk.now, resp: rec().resp.clone(), calls: rec().calls.clone(), hist: Some(hist), bells: kk.tty.vt.bells },
            nchunks: sent,
            nerr: kk.err_log.len(),
            t0,
        });
    }
    std::mem::forget(io);
}

// --------------------------------------------------------------- evaluation
const SLACK: u64 = 15 * MS;
pub struct Verdict {
    pub viol: Vec<String>,
    pub inconclusive: Option<String>,
    pub visited: u64,
}
/// the model's view of what the application's threads did in a phase
pub fn app_items(p: &Plan, r: &Run, pi: usize, time: u64) -> (Vec<Vec<MItem>>, Vec<MItem>) {
    let ph = &p.phases[pi];
    let slow = p.kn.p_stall > 0.0 || ph.stall.is_some() || ph.threads.iter().flatten().any(|o| matches!(o, Op::Suspend { .. })) || p.mix.keys.stop > 0;
    let mut src: Vec<Vec<MItem>> = vec![];
    let mut all_swaps: Vec<Vec<MItem>> = vec![];
    for (ti, ops) in ph.threads.iter().enumerate() {
        let mut v = vec![];
        let mut swaps: Vec<MItem> = vec![];
        let mut sw = r.swaps[pi].iter().filter(|x| x.0 == ti);
        for (oi, op) in ops.iter().enumerate() {
            let Some(rc) = r.recs[pi][ti].get(oi) else { break };
            if rc.failed {
                continue;
            }
            let mut push = |k: MK| v.push(MItem { k, inv: rc.inv, ret: rc.ret, min_resp: rc.nresp, dbg: format!("thread {}: {}", ti, show_op(op)) });
            match op {
                Op::Out { l, how } => push(if *how == 2 || *how == 4 { MK::OutWrap(l.m.clone()) } else { MK::Out(l.m.clone()) }),
                Op::Status(l) => push(MK::Status(l.as_ref().map(|l| l.m.clone()))),
                Op::Prompt { l, allowed, clear } => push(MK::Prompt { line: if l.text().is_empty() { None } else { Some(l.m.clone()) }, allowed: *allowed, clear: *clear }),
                Op::Notice(l, d) => {
                    let hi = if slow { time.saturating_add(*d) } else { (rc.t1 + SLACK).saturating_add(*d) };
                    push(MK::Notice(l.m.clone(), rc.t0.saturating_add(*d), hi))
                }
                Op::Bell => push(MK::Bell),
                Op::Custom(n, _) => push(MK::Custom(*n)),
                Op::Suspend { lines, .. } => push(MK::Suspend(lines.iter().map(|l| Arc::new(plain(l))).collect())),
                Op::SetComp(c) => push(MK::SetComp(*c)),
                Op::Swap(h) => {
                    push(MK::Bump);
                    if let Some((_, _, old)) = sw.next() {
                        swaps.push(MItem { k: MK::Swap(Arc::new(h.clone()), Some(old.clone())), inv: rc.inv, ret: rc.ret, min_resp: rc.nresp, dbg: "swap_history".into() })
                    }
                }
                Op::Peek => {
                    if let Some((_, _, old)) = sw.next() {
                        swaps.push(MItem { k: MK::Peek(old.clone()), inv: rc.inv, ret: rc.ret, min_resp: rc.nresp, dbg: "read_history".into() })
                    }
                }
                Op::Burst { n, custom, from } => {
                    for i in *from..*from + *n {
                        push(if *custom { MK::Custom(i) } else { MK::Out(Arc::new(plain(&format!("#{}", i)))) })
                    }
                }
                Op::Sleep(_) | Op::Read(_) | Op::Err(_) => {}
            }
        }
        src.push(v);
        all_swaps.push(swaps);
    }
    let main = all_swaps.remove(0);
    src.extend(all_swaps.into_iter().filter(|x| !x.is_empty()));
    for (_, op, rc) in r.inner.iter().filter(|x| x.0 == pi) {
        let k = match op {
            Op::Bell => MK::Bell,
            Op::Custom(n, _) => MK::Custom(*n),
            Op::Status(l) => MK::Status(l.as_ref().map(|l| l.m.clone())),
            Op::Out { l, .. } => MK::Out(l.m.clone()),
            _ => unreachable!(),
        };
        src.push(vec![MItem { k, inv: rc.inv, ret: rc.ret, min_resp: rc.nresp, dbg: format!("in a closure: {}", show_op(op)) }]);
    }
    (src, main)
}
fn items(p: &Plan, r: &Run, pi: usize, keys: &[(Key, usize)]) -> Vec<Vec<MItem>> {
    let snap = &r.snaps[pi];
    let (mut src, swaps) = app_items(p, r, pi, snap.obs.time);
    let lo = if pi == 0 { 0 } else { r.snaps[pi - 1].nchunks };
    let mut v = vec![];
    for (key, c) in keys {
        if *c >= lo && *c < snap.nchunks {
            let inv = k().input_stamps.get(*c).copied().unwrap_or(0);
            v.push(MItem { k: MK::Key(*key), inv, ret: u64::MAX, min_resp: 0, dbg: format!("key {:?}", key) });
        }
    }
    src.push(v);
    src.push(swaps);
    if p.mix.ops.err > 0 {
        let lo = if pi == 0 { 0 } else { r.snaps[pi - 1].nerr };
        src.push(err_lines().into_iter().filter(|x| x.2 >= lo && x.2 < snap.nerr).map(|(l, at, _)| MItem { dbg: format!("stderr line {:?}", l.c.iter().map(|x| x.0).collect::<String>()), k: MK::Out(l), inv: at, ret: u64::MAX, min_resp: 0 }).collect());
    }
    src
}
/// which part of the live area (status, notice, prompt) a request sets, and
/// how tall that is
fn tops(op: &Op, h: &dyn Fn(&MLine, usize) -> usize) -> Vec<(usize, usize)> {
    match op {
        Op::Status(Some(l)) => vec![(0, h(&l.m, 0))],
        Op::Status(None) => vec![(0, 0)],
        Op::Notice(l, _) => vec![(1, h(&l.m, 0))],
        Op::Prompt { l, .. } => vec![(2, h(&l.m, 0))],
        Op::Suspend { inner, .. } => inner.iter().flat_map(|o| tops(o, h)).collect(),
        _ => vec![],
    }
}
/// can the live area have been taller than the screen, up to this phase? (An
/// upper bound; what such a live area leaves behind is unspecified.)
fn may_be_tall(p: &Plan, keys: &[(Key, usize)], upto: usize) -> bool {
    let c = &p.tc.cfg;
    let height = |l: &MLine, extra: usize| layout_live(c, &l.c, None).0.len() + extra;
    // status; notice; prompt (what is in force at the start of a phase, or
    // becomes so during it)
    let mut cur = [0usize; 3];
    // (all that was ever typed, recalled or completed bounds the input)
    let mut run = 0;
    let mut typed = 0;
    let mut clip = 0;
    for (k, _) in keys {
        match k {
            Key::Ctl(10 | 13) => run = 0,
            Key::Ch(ch) => run += crate::vt::cw(*ch).max(1),
            // (any of what was there may have been killed, and be yanked)
            Key::Ctl(0x15 | 0x0b | 0x17) => clip = clip.max(run),
            Key::Ctl(0x19) => run += clip + 1,
            Key::Ctl(0x10 | 0x0e) | Key::Up | Key::Down => run = run.max(typed) + 1,
            Key::Ctl(_) => run += 1,
            _ => {}
        }
        typed = run.max(typed);
    }
    let typed = typed + 20;
    for ph in &p.phases[..=upto] {
        let mut max = [0usize; 3];
        let mut last = [0usize; 3];
        for ops in &ph.threads {
            let mut l = [None; 3];
            for op in ops {
                for (i, h) in tops(op, &height) {
                    max[i] = max[i].max(h);
                    l[i] = Some(h);
                }
            }
            for i in 0..3 {
                last[i] = last[i].max(l[i].unwrap_or(0));
            }
        }
        let tot: Vec<usize> = (0..3).map(|i| max[i].max(cur[i])).collect();
        if tot[0] + tot[1].max(tot[2] + typed / c.w.max(1) + 1) + 1 > c.h {
            return true;
        }
        for i in 0..3 {
            if last[i] > 0 || ph.threads.iter().flatten().any(|o| tops(o, &height).iter().any(|x| x.0 == i)) {
                cur[i] = last[i].max(if ph.threads.len() > 1 { max[i] } else { 0 });
            }
        }
    }
    false
}
/// None: everything explained
fn explain_all(p: &Plan, r: &Run, a: Aspects, visited: &mut u64) -> Result<(), Result<String, String>> {
    // the phases start long after the previous one ended
    let mut chunks = vec![];
    for ph in &p.phases {
        for (i, c) in ph.chunks.iter().enumerate() {
            chunks.push(Chunk { gap: if i == 0 { c.gap + 60 * MS } else { c.gap }, b: c.b.clone() });
        }
    }
    let keys = decode(&chunks, p.tc.cfg.vt52);
    let mut states = vec![S::new(r.row0)];
    let mut prev: Option<(usize, usize)> = Some((0, r.row0));
    // the search of some phase gave up early: `states` may lack what happened
    let mut partial = false;
    for (pi, snap) in r.snaps.iter().enumerate() {
        let src = items(p, r, pi, &keys);
        let mut ctx = Ctx { cfg: p.tc.cfg, obs: &snap.obs, a, comps: &p.comps, t0: snap.t0, fail: (0, String::new()), visited: 0, cap: 400_000, overflow: false, tall: false, loose: false };
        if a.out {
            if !snap.obs.vt.odd.is_empty() {
                return Err(Ok(format!("phase {}: the terminal received something no terminal understands: {:?}", pi, snap.obs.vt.odd)));
            }
            // what was printed before stays
            if let (Some((ep, row)), true) = (prev, pi > 0) {
                let old = &r.snaps[pi - 1].obs.vt;
                let new = &snap.obs.vt;
                let get = |v: &Vt, i: usize| -> Option<crate::vt::Row> {
                    let rows = if ep < v.epochs.len() { v.epochs.get(ep)? } else if ep == v.epochs.len() { &v.rows } else { return None };
                    rows.get(i).cloned()
                };
                for i in 0..row {
                    if let (Some(x), Some(y)) = (get(old, i), get(new, i)) {
                        let (x, y) = (crate::vt::row_text(&x), crate::vt::row_text(&y));
                        if x != y {
                            return Err(Ok(format!("phase {}: row {} of screen {} read {:?} and was changed to {:?}", pi, i, ep, x, y)));
                        }
                    }
                }
            }
        }
        let next = ctx.explain(&states, &src);
        *visited += ctx.visited as u64;
        if ctx.tall {
            return Err(Err("live area taller than the screen".into()));
        }
        partial |= ctx.overflow;
        if next.is_empty() {
            if partial {
                return Err(Err("too many interleavings to decide".into()));
            }
            if may_be_tall(p, &keys, pi) {
                return Err(Err("the live area may have been taller than the screen meanwhile".into()));
            }
            return Err(Ok(format!("phase {}: {}", pi, ctx.fail.1)));
        }
        let f = (next[0].ep, next[0].row);
        prev = if !partial && next.iter().all(|s| (s.ep, s.row) == f) { Some(f) } else { None };
        states = next;
    }
    Ok(())
}
/// everything but the comparison with the model
fn side_checks(p: &Plan, r: &Run) -> Vec<String> {
    let mut v = vec![];
    let kk = k();
    let nostall = p.kn.p_stall == 0.0;
    let ended = r.snaps.len() == p.phases.len();
    if p.mix.timing && nostall {
        let mut taken: std::collections::BTreeMap<u32, usize> = Default::default();
        for (i, rd) in rec().reads.iter().enumerate() {
            if let Some(Resp::Custom(n)) = &rd.got {
                taken.insert(*n, i);
            }
        }
        // the output thread may be busy with a suspended program or a stalled terminal
        let busy = p.phases.iter().any(|x| x.stall.is_some() || x.threads.iter().flatten().any(|o| matches!(o, Op::Suspend { nap, .. } if *nap > 0))) || p.mix.keys.stop > 0;
        for (ri, rd) in rec().reads.iter().enumerate() {
            let dur = rd.t1 - rd.t0;
            let bound = match rd.kind {
                RK::Try => Some(0),
                RK::Timeout(us) | RK::Tokio(Some(us)) => Some(us * 1000),
                RK::Deadline(us) => Some(us.max(0) as u64 * 1000),
                _ => None,
            };
            if let Some(b) = bound {
                if awake(rd.t0, rd.t1) > b + SLACK {
                    v.push(format!("read {:?} returned {:?} after {:.3}ms", rd.kind, rd.got, dur as f64 / 1e6));
                }
                if rd.got.is_none() && dur < b && !matches!(rd.kind, RK::Try) {
                    v.push(format!("read {:?} returned nothing after only {:.3}ms", rd.kind, dur as f64 / 1e6));
                }
            }
            if let Some(Resp::Custom(n)) = &rd.got {
                let avail = rec().sent_at.get(n).copied().unwrap_or(0).max(rd.t0);
                if !busy && rd.t1 > avail + SLACK {
                    v.push(format!("read {:?} returned custom value {} {:.3}ms after it was available", rd.kind, n, (rd.t1 - avail) as f64 / 1e6));
                }
            }
            if rd.got.is_none() && !busy {
                for (n, t) in &rec().sent_at {
                    if t + SLACK < rd.t0 && taken.get(n).map_or(true, |x| *x >= ri) {
                        v.push(format!("read {:?} returned nothing although custom value {} had been available for {:.3}ms", rd.kind, n, (rd.t0 - t) as f64 / 1e6));
                        break;
                    }
                }
            }
        }
    }
    if p.mix.timing && nostall {
        for rd in &rec().reads {
            if matches!(rd.kind, RK::Try) && awake(rd.t0, rd.t1) > SLACK {
                v.push(format!("try_read blocked for {:.3}ms", (rd.t1 - rd.t0) as f64 / 1e6));
            }
        }
    }
    if p.mix.block && nostall {
        for (pi, ph) in p.phases.iter().enumerate() {
            for (ti, ops) in ph.threads.iter().enumerate() {
                for (oi, op) in ops.iter().enumerate() {
                    let Some(rc) = r.recs.get(pi).and_then(|x| x[ti].get(oi)) else { continue };
                    if matches!(op, Op::Sleep(_) | Op::Read(_) | Op::Swap(_) | Op::Peek | Op::Err(_)) {
                        continue;
                    }
                    if awake(rc.t0, rc.t1) > SLACK {
                        v.push(format!("{} took {:.3}ms to return", show_op(op), (rc.t1 - rc.t0) as f64 / 1e6));
                    }
                }
            }
        }
    }
    if p.mix.probes {
        for pr in &rec().probes {
            let mut bad = vec![];
            if pr.raw {
                bad.push("the terminal was still in raw mode")
            }
            if !pr.visible {
                bad.push("the cursor was hidden")
            }
            if !pr.wrap {
                bad.push("line wrap was off")
            }
            if !pr.attr_default {
                bad.push("attributes were not reset")
            }
            if pr.col != 0 && !pr.what.starts_with("stopped") {
                bad.push("the cursor was not at the start of a row")
            }
            if !pr.below_blank {
                bad.push("the live area was still on screen")
            }
            if !pr.hook_ours {
                bad.push("the caller's panic hook was not installed")
            }
            if !bad.is_empty() {
                v.push(format!("{}: {}", pr.what, bad.join(", ")));
            }
        }
        if ended {
            let mut want: Vec<u32> = p.phases.iter().flat_map(|x| x.threads.iter().flatten()).filter_map(|o| if let Op::Suspend { id, .. } = o { Some(*id) } else { None }).collect();
            let mut got = rec().susp.clone();
            want.sort();
            got.sort();
            if want != got {
                v.push(format!("closures {:?} were given to suspend_and_run but {:?} ran", want, got));
            }
        }
    }
    v.extend(rec().err_fail.iter().cloned());
    if kk.err_log.iter().any(|x| !x.1) && p.mix.ops.err > 0 {
        v.push("what was written to stderr while Liso was alive went directly to the terminal".into());
    }
    if kk.bad_closes > 0 {
        v.push(format!("{} file descriptors were closed that were not open", kk.bad_closes));
    }
    v
}
pub fn judge(p: &Plan, r: &Run, abort: Option<(String, String)>) -> Verdict {
    let mut v = vec![];
    let mut visited = 0;
    if let Some(x) = harness_panic() {
        return Verdict { viol: vec![], inconclusive: Some(x), visited };
    }
    for x in liso_panics() {
        v.push(x);
    }
    if let Some((kind, m)) = &abort {
        if kind == "harness" {
            return Verdict { viol: vec![], inconclusive: Some(m.clone()), visited };
        }
        v.push(format!("{}: {}", kind, m));
    }
    v.extend(side_checks(p, r));
    let mut inc = None;
    if v.is_empty() && abort.is_none() {
        if let Err(e) = explain_all(p, r, ALL, &mut visited) {
            match e {
                Err(why) => inc = Some(why),
                Ok(first) => match explain_all(p, r, p.mix.a, &mut visited) {
                    Ok(()) => inc = Some(format!("only another property is affected: {}", first)),
                    Err(Err(why)) => inc = Some(why),
                    Err(Ok(m)) => {
                        v.push(m);
                        if std::env::var_os("LISOSIM_VERBOSE").is_some() {
                            v.push(format!("(all aspects: {})", first));
                        }
                    }
                },
            }
        }
    }
    Verdict { viol: v, inconclusive: inc, visited }
}
