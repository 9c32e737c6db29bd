//! File-backed history (P13): saving and loading on the simulated file
//! system, through the History API itself and through an instance of Liso,
//! with failing operations, crashes at and between them, and power losses.
use crate::exec::*;
use crate::fs::FsFault;
use crate::gen::*;
use crate::kernel::*;
use crate::life::{shut_down, How, IRec};
use crate::model::Resp;
use crate::rng::Tape;
use crate::tty::Verdict;
use liso::History;
use std::num::NonZeroUsize;

#[derive(Clone, Debug)]
pub enum HOp {
    Add(String),
    /// autosave interval (only directly after a save or load)
    Interval(Option<usize>),
    Limit(Option<usize>),
    Strip(bool),
    /// write_history_to another file, then read it back
    Export,
    /// read_history_from another file
    Import(usize),
    Sleep(u64),
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// the History is dropped
    Drop,
    /// the process ends without any destructor
    Kill,
}
#[derive(Clone, Debug)]
pub struct Sess {
    /// the handler: None = from_file's own; Some(fails) = one of the
    /// program's, failing as scripted
    pub custom: Option<Vec<bool>>,
    pub ops: Vec<HOp>,
    pub end: End,
    /// operation number within the session, what happens
    pub faults: Vec<(u64, FsFault)>,
    /// the disk stays full
    pub stays_full: bool,
    /// power fails after the session (what of the unsynced state survives)
    pub power: Option<Vec<u32>>,
}
#[derive(Clone, Debug)]
pub struct Live {
    pub interval: Option<usize>,
    pub limit: Option<Option<usize>>,
    pub strip: bool,
    /// pause, text
    pub lines: Vec<(u64, String)>,
    pub faults: Vec<(u64, FsFault)>,
    pub how: How,
    pub calm: bool,
    /// the process is killed this long after the instance was set up
    pub kill: Option<u64>,
    pub power: Option<Vec<u32>>,
}
pub struct Plan {
    pub kn: Knobs,
    pub tc: TermChoice,
    pub path: &'static str,
    pub init: Option<Vec<u8>>,
    pub backup: Option<Vec<u8>>,
    pub build: Option<Vec<u8>>,
    pub imports: Vec<Vec<u8>>,
    pub sess: Vec<Sess>,
    pub live: Option<Live>,
}
type Lines = Vec<String>;
#[derive(Default)]
pub struct Run {
    viol: Vec<String>,
    /// what was saved, in order, and whether the save is known to be complete
    saves: Vec<(Lines, bool)>,
    /// what is being saved right now, if the operation in progress saves
    pending: Option<Lines>,
    /// the session has ended by itself
    over: bool,
    checks: u64,
    /// there was a power loss since the last load
    powered: bool,
    done: bool,
    log: Vec<String>,
}
static mut PLAN: Option<&'static Plan> = None;
static mut RUN: Option<&'static mut Run> = None;
fn plan() -> &'static Plan {
    unsafe { PLAN.unwrap() }
}
#[allow(static_mut_refs)]
fn run() -> &'static mut Run {
    unsafe { RUN.as_mut().unwrap() }
}
pub fn start(p: Plan) {
    unsafe {
        PLAN = Some(Box::leak(Box::new(p)));
        RUN = Some(Box::leak(Box::default()));
    }
}
fn complain(s: String) {
    note(format!("!! {}", s));
    run().viol.push(s);
}
fn note(s: String) {
    if k().trace {
        k().tlog(s.clone());
    }
    run().log.push(s);
}

// --------------------------------------------------------------- generation
fn gen_hline(t: &mut Tape, tty: bool) -> String {
    match t.weighted(&[12, 3, 2, if tty { 0 } else { 2 }, if tty { 0 } else { 2 }, 2]) {
        0 => {
            let n = t.int(1, 8);
            (0..n).map(|_| *t.pick(&['a', 'b', 'c', ' ', 'z', '0'])).collect()
        }
        // a duplicate is likely
        1 => t.pick(&["a", "ls -l", "x"]).to_string(),
        2 => {
            let n = t.int(1, 6);
            (0..n).map(|_| if t.chance(0.5) { *t.pick(&NARROW) } else { *t.pick(&WIDE) }).collect()
        }
        3 => {
            let n = *t.pick(&[4000usize, 8191, 8192, 8193, 20000, 2700]);
            let c = *t.pick(&['q', 'é']);
            std::iter::repeat(c).take(n / c.len_utf8()).collect()
        }
        4 => String::new(),
        _ => t.pick(&["\u{feff}bom", " lead", "trail ", "\u{feff}", "\u{301}x"]).to_string(),
    }
}
fn gen_file(t: &mut Tape, odd: bool) -> Vec<u8> {
    let mut b = vec![];
    let n = if t.chance(0.1) { 105 } else { t.int(1, 12) as usize };
    for _ in 0..n {
        let l = if n > 100 { format!("line {}", b.len()) } else { gen_hline(t, false) };
        b.extend(l.bytes());
        if odd && t.chance(0.2) {
            b.push(b'\r');
        }
        b.push(b'\n');
    }
    if odd && t.chance(0.2) {
        b.pop();
    }
    if odd && t.chance(0.15) {
        let mut x = "\u{feff}".as_bytes().to_vec();
        x.extend(b);
        b = x;
    }
    b
}
fn gen_power(t: &mut Tape) -> Vec<u32> {
    t.list(24, 0.85, |t| t.below(1 << 16))
}
fn gen_faults(t: &mut Tape, crashes: bool) -> Vec<(u64, FsFault)> {
    let n = t.weighted(&[3, 6, 2, 1]);
    let mut v = vec![];
    for _ in 0..n {
        let at = match t.below(4) {
            0 => t.below(8),
            1 => t.below(20),
            2 => t.below(50),
            _ => 3 + t.below(12),
        } as u64;
        let x = t.weighted(&[6, 3, 3, if crashes { 4 } else { 0 }, if crashes { 4 } else { 0 }, if crashes { 3 } else { 0 }]);
        let f = match x {
            0 => FsFault::Err(*t.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EROFS, libc::EDQUOT, libc::EINTR])),
            1 => FsFault::Short,
            2 => FsFault::Full,
            3 => FsFault::CrashBefore,
            4 => FsFault::CrashAfter,
            _ => FsFault::Torn(t.below(9) as u8),
        };
        v.push((at, f));
    }
    v
}
pub fn gen(t: &mut Tape, live: bool) -> Plan {
    let mut tc = gen_term(t, 0.0, 0.0);
    tc.cfg.w = 80;
    tc.cfg.h = 40;
    let mut kn = gen_knobs(t, &KnobMix { stall: 0.0, edges: 0.3, reads: 0.3 });
    kn.max_steps = 400_000;
    let path = *t.pick(&["/h/hist", "/h/hist.txt", "/h/.history", "/h/a~"]);
    let shape = t.weighted(&[4, 8, 2, 1]);
    let (mut init, mut backup, mut build) = (None, None, None);
    match shape {
        0 => {}
        1 => init = Some(gen_file(t, true)),
        2 => {
            // what a crash within a save can leave behind
            backup = Some(gen_file(t, false));
            match t.below(4) {
                0 => build = Some(gen_file(t, false)),
                1 => init = Some(gen_file(t, false)),
                3 => init = Some(vec![]),
                _ => {}
            }
        }
        _ => {
            init = Some(if t.chance(0.5) { vec![] } else { gen_file(t, false) });
            let mut g = gen_file(t, false);
            let n = t.below(g.len() as u32) as usize;
            g.truncate(n);
            build = Some(g);
        }
    }
    let imports: Vec<Vec<u8>> = (0..2).map(|_| gen_file(t, true)).collect();
    let sess = if live {
        vec![]
    } else {
        let n = 1 + t.list(4, 0.75, |_| ()).len();
        (0..n)
            .map(|_| {
                t.span(|t| {
                    let custom = if t.chance(0.1) { Some((0..8).map(|_| t.chance(0.2)).collect()) } else { None };
                    let mut ops = vec![];
                    if t.chance(0.8) {
                        ops.push(HOp::Interval(Some(*t.pick(&[1usize, 2, 3, 5]))));
                    }
                    ops.extend(t.list(14, 0.85, |t| match t.weighted(&[20, 1, 1, 1, 1, 1, 1]) {
                        0 => HOp::Add(gen_hline(t, false)),
                        1 => HOp::Interval(*t.pick(&[Some(1), None, Some(2), Some(4)])),
                        2 => HOp::Limit(*t.pick(&[Some(3), Some(1), None, Some(100), Some(7)])),
                        3 => HOp::Strip(t.chance(0.5)),
                        4 => HOp::Export,
                        5 => HOp::Import(t.below(2) as usize),
                        _ => HOp::Sleep(*t.pick(&[1000, MS])),
                    }));
                    let end = if t.chance(0.25) { End::Kill } else { End::Drop };
                    let faults = gen_faults(t, true);
                    let power = if t.chance(0.3) { Some(gen_power(t)) } else { None };
                    Sess { custom, ops, end, faults, stays_full: t.chance(0.1), power }
                })
            })
            .collect()
    };
    let live = if live {
        let kill = if t.chance(0.25) { Some(*t.pick(&[0u64, 100_000, 1_000_000, 20 * MS])) } else { None };
        Some(Live {
            interval: *t.pick(&[Some(1), None, Some(2), Some(3)]),
            limit: if t.chance(0.3) { Some(*t.pick(&[Some(2), None, Some(5)])) } else { None },
            strip: !t.chance(0.2),
            lines: t.list(10, 0.85, |t| (*t.pick(&[0u64, 20_000, 2 * MS, 80 * MS, 4000 * MS]), gen_hline(t, true))),
            faults: gen_faults(t, true),
            how: match t.weighted(&[6, 3, 3, 2, 2, 1, 1, 1, 1]) {
                0 => How::Drop,
                1 => How::BlockingDie,
                2 => How::Die,
                3 => How::DieCancelled(t.int(1, 3) as u32),
                4 => How::Elsewhere,
                6 => How::TaskDrop,
                7 => How::TaskBlockingDie,
                8 => How::TaskDie,
                _ => How::Unwind,
            },
            calm: t.chance(0.7),
            kill,
            power: if t.chance(0.3) { Some(gen_power(t)) } else { None },
        })
    } else {
        None
    };
    Plan { kn, tc, path, init, backup, build, imports, sess, live }
}
fn short(b: &[u8]) -> String {
    let s = format!("{:?}", String::from_utf8_lossy(b));
    if s.len() > 200 {
        format!("{}... ({} bytes)", s.chars().take(120).collect::<String>(), b.len())
    } else {
        s
    }
}
pub fn show() -> String {
    let p = plan();
    let mut s = format!("history file {}\nschedule: {:?}\n", p.path, p.kn);
    for (n, x) in [("", &p.init), ("~", &p.backup), ("^", &p.build)] {
        if let Some(b) = x {
            s.push_str(&format!("{}{} contains {}\n", p.path, n, short(b)));
        }
    }
    for (i, x) in p.sess.iter().enumerate() {
        s.push_str(&format!("session {}: handler {:?} faults {:?} disk stays full: {}\n", i, x.custom, x.faults, x.stays_full));
        for o in &x.ops {
            let o = format!("{:?}", o);
            s.push_str(&format!("  {}\n", o.chars().take(150).collect::<String>()));
        }
        s.push_str(&format!("  end {:?}{}\n", x.end, x.power.as_ref().map_or(String::new(), |p| format!(", power loss {:?}", p))));
    }
    if let Some(l) = &p.live {
        s.push_str(&format!("{:?}\n", l));
    }
    s.push_str("history of the run:\n");
    for l in &run().log {
        s.push_str(&format!("  {}\n", l.chars().take(300).collect::<String>()));
    }
    s
}

// ------------------------------------------------------------------- oracle
/// what a file contains, if it can be read at all
fn parse(b: &[u8]) -> Option<Lines> {
    let s = std::str::from_utf8(b).ok()?;
    let mut v: Lines = s.split('\n').map(|x| x.trim_end_matches('\r').to_string()).collect();
    if s.is_empty() || s.ends_with('\n') {
        v.pop();
    }
    if let Some(f) = v.first_mut() {
        if let Some(x) = f.strip_prefix('\u{feff}') {
            *f = x.to_string();
        }
    }
    Some(v)
}
fn brief(l: &[String]) -> String {
    let v: Vec<String> = l.iter().map(|x| if x.len() > 40 { format!("{}...({} bytes)", x.chars().take(10).collect::<String>(), x.len()) } else { x.clone() }).collect();
    if v.len() > 14 {
        format!("{} lines {:?} ... {:?}", v.len(), &v[..4], &v[v.len() - 4..])
    } else {
        format!("{:?}", v)
    }
}
struct Model {
    lines: Lines,
    limit: Option<usize>,
    strip: bool,
    interval: Option<usize>,
    since: usize,
    /// changed since the last complete save
    changed: bool,
    /// one cannot say whether it counts as changed
    vague: bool,
}
impl Model {
    fn new(lines: Lines) -> Model {
        Model { lines, limit: Some(100), strip: true, interval: None, since: 0, changed: false, vague: false }
    }
    /// true: a save is due
    fn add(&mut self, l: &str) -> bool {
        if self.strip {
            self.lines.retain(|x| x != l);
        }
        self.lines.push(l.to_string());
        if let Some(n) = self.limit {
            if self.lines.len() > n {
                let d = self.lines.len() - n;
                self.lines.drain(..d);
            }
        }
        self.changed = true;
        if let Some(n) = self.interval {
            self.since += 1;
            if self.since >= n {
                self.since = 0;
                return true;
            }
        }
        false
    }
}
fn faulty(fired: u64) -> bool {
    k().fs.fired > fired || k().fs.full
}
/// the saves of which a load may yield the result
fn allowed(power: bool) -> Vec<Lines> {
    let s = &run().saves;
    let mut need = if power { 2 } else { 1 };
    let mut i = s.len();
    while i > 0 && need > 0 {
        i -= 1;
        if s[i].1 {
            need -= 1;
        }
    }
    s[i..].iter().map(|x| x.0.clone()).collect()
}
/// Starts the program again: loads. None: the load failed, for which there
/// was a reason.
fn load() -> Option<History> {
    let power = run().powered;
    let fired = k().fs.fired;
    let r = may_panic(|| History::from_file(plan().path));
    let Some(r) = r else {
        complain("from_file panicked".into());
        return None;
    };
    let h = match r {
        Err(e) => {
            note(format!("from_file fails: {}", e));
            if !faulty(fired) {
                complain(format!("the history could not be loaded: {}", e));
            }
            return None;
        }
        Ok(h) => h,
    };
    run().checks += 1;
    run().powered = false;
    let got = h.get_lines().to_vec();
    note(format!("from_file yields {}", brief(&got)));
    let ok = allowed(power);
    if !ok.contains(&got) {
        let w: Vec<String> = ok.iter().map(|x| brief(x)).collect();
        complain(format!(
            "after {}, loading yields {} which is not what was saved: {}",
            if power { "a power loss" } else { "the program was started again" },
            brief(&got),
            w.join(" or ")
        ));
        return None;
    }
    let s = &mut run().saves;
    if power {
        *s = vec![(got, true)];
    } else {
        // (the earliest that fits, in case several look the same)
        let last = s.iter().rposition(|x| x.1).unwrap_or(0);
        let i = (last..s.len()).find(|i| s[*i].0 == got).unwrap();
        s.truncate(i + 1);
        s[i].1 = true;
    }
    Some(h)
}
/// something that may save: returns whether the call succeeded
fn saving(want: Option<Lines>, f: impl FnOnce() -> std::io::Result<()>) -> bool {
    let fired = k().fs.fired;
    run().pending = want.clone();
    let r = f();
    run().pending = None;
    match r {
        Ok(()) => {
            if let Some(l) = want {
                note(format!("saved {}", brief(&l)));
                run().saves.push((l, true));
            }
            true
        }
        Err(e) => {
            note(format!("reported: {}", e));
            if !faulty(fired) {
                complain(format!("add_line reported an error although nothing had failed: {}", e));
            }
            match want {
                Some(l) => run().saves.push((l, false)),
                None => complain(format!("add_line reported an error although no save was due: {}", e)),
            }
            false
        }
    }
}
struct Calls {
    got: Vec<Lines>,
    fails: Vec<bool>,
}
static mut CALLS: Option<Calls> = None;
#[allow(static_mut_refs)]
fn calls() -> &'static mut Option<Calls> {
    unsafe { &mut CALLS }
}
fn session(x: &'static Sess) {
    let Some(mut h) = load() else { return };
    let mut m = Model::new(h.get_lines().to_vec());
    if let Some(fails) = &x.custom {
        *calls() = Some(Calls { got: vec![], fails: fails.clone() });
        h.set_autosave_handler(Some(Box::new(|h: &History| {
            let c = calls().as_mut().unwrap();
            let n = c.got.len();
            c.got.push(h.get_lines().to_vec());
            if c.fails.get(n) == Some(&true) {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "the program's own error"));
            }
            Ok(())
        })));
    }
    for op in &x.ops {
        match op {
            HOp::Interval(n) => {
                if m.since == 0 {
                    h.set_autosave_interval(n.and_then(NonZeroUsize::new));
                    m.interval = *n;
                }
            }
            HOp::Limit(n) => {
                h.set_limit(n.and_then(NonZeroUsize::new));
                m.limit = *n;
            }
            HOp::Strip(b) => {
                h.set_strip_duplicates(*b);
                m.strip = *b;
            }
            HOp::Sleep(ns) => sleep(*ns),
            HOp::Add(l) => {
                let due = m.add(l);
                if let Some(c) = calls().as_ref().filter(|_| x.custom.is_some()) {
                    let n = c.got.len();
                    let r = h.add_line(l.clone());
                    let c = calls().as_ref().unwrap();
                    let want = n + due as usize;
                    if c.got.len() != want {
                        complain(format!("the autosave handler was called {} times instead of {}", c.got.len(), want));
                        return;
                    }
                    if due && c.got[n] != m.lines {
                        complain(format!("the autosave handler was given {} instead of {}", brief(&c.got[n]), brief(&m.lines)));
                    }
                    let fail = due && c.fails.get(n) == Some(&true);
                    if r.is_err() != fail {
                        complain(format!("add_line returned {:?} although the autosave handler {}", r, if fail { "failed" } else { "did not fail" }));
                    }
                    if due && !fail {
                        m.changed = false;
                        m.vague = false;
                    }
                } else {
                    let want = if due { Some(m.lines.clone()) } else { None };
                    if saving(want, || h.add_line(l.clone())) && due {
                        m.changed = false;
                        m.vague = false;
                    }
                }
            }
            HOp::Export => {
                let fired = k().fs.fired;
                match h.write_history_to("/h/export") {
                    Err(e) => {
                        if !faulty(fired) {
                            complain(format!("write_history_to failed: {}", e));
                        }
                    }
                    Ok(()) => {
                        let mut g = History::new();
                        match g.read_history_from("/h/export") {
                            Ok(n) => {
                                if g.get_lines() != m.lines || n != m.lines.len() {
                                    complain(format!("write_history_to wrote {}, read_history_from read {} ({})", brief(&m.lines), brief(g.get_lines()), n));
                                }
                            }
                            Err(e) => {
                                if !faulty(fired) {
                                    complain(format!("read_history_from failed: {}", e));
                                }
                            }
                        }
                    }
                }
            }
            HOp::Import(i) => {
                let fired = k().fs.fired;
                match h.read_history_from(format!("/h/import{}", i)) {
                    Ok(n) => {
                        m.lines = parse(&plan().imports[*i]).unwrap();
                        if n != m.lines.len() {
                            complain(format!("read_history_from returned {} for {} lines", n, m.lines.len()));
                        }
                    }
                    Err(e) => {
                        if !faulty(fired) {
                            complain(format!("read_history_from failed: {}", e));
                        }
                        m.lines = h.get_lines().to_vec();
                    }
                }
                m.vague = true;
            }
        }
        if h.get_lines() != m.lines {
            complain(format!("after {}, the history contains {} instead of {}", format!("{:?}", op).chars().take(60).collect::<String>(), brief(h.get_lines()), brief(&m.lines)));
            return;
        }
    }
    if x.end == End::Kill {
        note("the process ends".into());
        std::mem::forget(h);
        return;
    }
    note("the history is dropped".into());
    if x.custom.is_some() {
        let n = calls().as_ref().unwrap().got.len();
        drop(h);
        let c = calls().as_ref().unwrap();
        let d = c.got.len() - n;
        if d > 1 || (m.changed && d == 0) {
            complain(format!("the history was dropped: its autosave handler was called {} times", d));
        }
        if d == 1 && c.got[n] != m.lines {
            complain(format!("the autosave handler was given {} instead of {}", brief(&c.got[n]), brief(&m.lines)));
        }
        return;
    }
    let fired = k().fs.fired;
    if m.changed || m.vague {
        run().pending = Some(m.lines.clone());
    }
    drop(h);
    run().pending = None;
    if m.changed || m.vague {
        note(format!("dropped with {}", brief(&m.lines)));
        run().saves.push((m.lines, m.changed && !faulty(fired)));
    }
}
/// the process is gone; what had been begun may have been saved
fn buried() {
    let r = run();
    if let Some(l) = r.pending.take() {
        r.saves.push((l, false));
    }
}
fn arm(faults: &[(u64, FsFault)]) {
    let n = k().fs.ops;
    k().fs.faults.clear();
    for (at, f) in faults {
        k().fs.faults.insert(n + at, f.clone());
    }
}
fn power_loss(v: &[u32]) {
    let mut i = 0;
    let mut draw = |n: u32| {
        i += 1;
        v.get(i - 1).map_or(0, |x| x % n.max(1))
    };
    note("the power fails".into());
    run().powered = true;
    k().bump(F::FsPowerLoss);
    k().fs.power_loss(&mut draw);
}
pub fn execute() {
    let p = plan();
    k().tty.termios.c_lflag &= !libc::ECHO;
    k().tty.orig = k().tty.termios;
    let fs = &mut k().fs;
    for (i, b) in p.imports.iter().enumerate() {
        fs.put(&format!("/h/import{}", i), b);
    }
    for (n, x) in [("~", &p.backup), ("^", &p.build), ("", &p.init)] {
        if let Some(b) = x {
            fs.put(&format!("{}{}", p.path, n), b);
        }
    }
    let first = match (&p.init, &p.backup) {
        (Some(b), None) => parse(b).unwrap(),
        (Some(b), Some(o)) => if b.is_empty() { parse(o).unwrap() } else { parse(b).unwrap() },
        (None, Some(o)) => parse(o).unwrap(),
        (None, None) => vec![],
    };
    run().saves.push((first, true));
    if let (None, Some(b)) = (&p.init, &p.build) {
        // complete, but not yet in its place
        if p.backup.is_some() {
            run().saves.push((parse(b).unwrap(), false));
        }
    }
    for (i, x) in p.sess.iter().enumerate() {
        note(format!("session {}", i));
        arm(&x.faults);
        k().fs.crashed = false;
        run().over = false;
        let _ = spawn_actor("program", move || {
            session(x);
            run().over = true;
        });
        settle(60 * MS);
        if !k().fs.crashed && !run().over {
            complain("the session hangs".into());
        }
        buried();
        if let Some(v) = &x.power {
            power_loss(v);
        }
        if !x.stays_full {
            k().fs.full = false;
        }
        if !run().viol.is_empty() {
            break;
        }
    }
    if let Some(l) = &p.live {
        live(l);
    }
    // no more faults: it must load, and then everything must work again
    arm(&[]);
    k().fs.full = false;
    if run().viol.is_empty() {
        if let Some(mut h) = load() {
            h.set_autosave_interval(NonZeroUsize::new(1));
            let mut m = Model::new(h.get_lines().to_vec());
            m.interval = Some(1);
            for l in ["last but one", "last"] {
                m.add(l);
                let want = Some(m.lines.clone());
                saving(want, || h.add_line(l.to_string()));
            }
            drop(h);
            if let Some(h) = load() {
                if h.get_lines() != m.lines {
                    complain(format!("a later save does not work: {} instead of {}", brief(h.get_lines()), brief(&m.lines)));
                }
            }
        }
    }
    run().done = true;
}
/// the history as part of an instance
fn live(l: &'static Live) {
    arm(&[]);
    run().over = false;
    static mut ARMED: bool = false;
    /// what is in the history after each line, and whether it is saved then;
    /// the number of lines that were read; whether the end has begun
    static mut MODEL: Option<(Vec<(Lines, bool)>, usize, bool)> = None;
    let _ = spawn_actor("program", move || {
        let Some(mut h) = load() else {
            run().over = true;
            return;
        };
        let mut m = Model::new(h.get_lines().to_vec());
        m.interval = l.interval;
        h.set_autosave_interval(l.interval.and_then(NonZeroUsize::new));
        if let Some(n) = l.limit {
            h.set_limit(n.and_then(NonZeroUsize::new));
            m.limit = n;
        }
        h.set_strip_duplicates(l.strip);
        m.strip = l.strip;
        let mut io = liso::InputOutput::new();
        drop(io.swap_history(h));
        arm(&l.faults);
        unsafe { ARMED = true };
        let mut at = now();
        for (g, s) in &l.lines {
            at += g;
            k().post(at, Event::TtyInput(format!("{}\r", s).into_bytes()), true);
        }
        let mut states = vec![(m.lines.clone(), false)];
        for (_, s) in &l.lines {
            let due = m.add(s);
            states.push((m.lines.clone(), due));
        }
        unsafe { MODEL = Some((states.clone(), 0, false)) };
        let fired = k().fs.fired;
        let mut n = 0;
        let upto = if l.calm { l.lines.len() } else { l.lines.len() / 2 };
        while n < upto {
            let r = io.read_timeout(std::time::Duration::from_secs(20));
            let want = &l.lines[n].1;
            match r.map(conv) {
                Some(Resp::Input(s)) if s == *want => {}
                x => {
                    complain(format!("instead of the line {:?}, {:?} was read", want, x));
                    run().over = true;
                    return;
                }
            }
            n += 1;
            if states[n].1 {
                run().saves.push((states[n].0.clone(), !faulty(fired)));
                note(format!("saved {}", brief(&states[n].0)));
            }
            unsafe { MODEL = Some((states.clone(), n, false)) };
        }
        if l.calm {
            sleep(60 * MS);
            let got = io.read_history().get_lines().to_vec();
            if got != states[n].0 {
                complain(format!("the history contains {} instead of {}", brief(&got), brief(&states[n].0)));
            }
        }
        unsafe { MODEL = Some((states.clone(), n, true)) };
        let mut rc = IRec::default();
        shut_down(io, l.how, &mut rc);
        unsafe { MODEL = None };
        // the end saves what isn't saved yet; the rest of the lines, if any,
        // may have been dealt with
        let done = !faulty(fired);
        note("the instance has ended".into());
        for (i, x) in states[n..].iter().enumerate() {
            if i > 0 || run().saves.last() != Some(&(x.0.clone(), true)) {
                run().saves.push((x.0.clone(), done && i == 0));
            }
        }
        run().over = true;
    });
    if let Some(t) = l.kill {
        while !unsafe { ARMED } && !run().over {
            sleep(50_000);
        }
        sleep(t);
        if !run().over {
            note("the process is killed".into());
            crate::wrap::kill_others();
        }
    }
    for _ in 0..1000 {
        settle(60 * MS);
        if k().fs.crashed || run().over {
            break;
        }
        sleep(200 * MS);
    }
    if !k().fs.crashed && !run().over {
        complain("the program hangs".into());
    }
    #[allow(static_mut_refs)]
    if let Some((s, n, ending)) = unsafe { MODEL.take() } {
        // killed while running: this may have been in progress
        for (i, x) in s.into_iter().enumerate().skip(n) {
            if ending || (x.1 && i > n) {
                run().saves.push((x.0, false));
            }
        }
    }
    if let Some(v) = &l.power {
        power_loss(v);
    }
}
pub fn judge(abort: Option<(String, String)>) -> Verdict {
    let visited = run().checks;
    if let Some(x) = harness_panic() {
        return Verdict { viol: vec![], inconclusive: Some(x), visited };
    }
    let mut v = liso_panics();
    if let Some((kind, m)) = &abort {
        if kind == "harness" {
            return Verdict { viol: vec![], inconclusive: Some(m.clone()), visited };
        }
        v.push(format!("{}: {}", kind, m));
    }
    v.extend(run().viol.iter().cloned());
    if v.is_empty() && !run().done {
        return Verdict { viol: vec![], inconclusive: Some("the run did not finish".into()), visited };
    }
    Verdict { viol: v, inconclusive: None, visited }
}
