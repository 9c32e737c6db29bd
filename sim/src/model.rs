//! The reference model: what Liso is supposed to do, as a small sequential
//! machine, plus a search for an interleaving of the concurrent requests of a
//! phase that explains everything that was observed.
use crate::vt::{cw, Attr, Cell, Row, Vt, BOLD, DEF, DIM, INV, ITAL, UNDER};
use std::collections::{HashSet, VecDeque};
use std::sync::Arc;

/// Attributes in Liso's own terms: fg/bg 0 = default, 1.. = Color + 1
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
pub struct MAttr {
    pub st: u8,
    pub fg: u8,
    pub bg: u8,
}
impl MAttr {
    fn fills(&self) -> bool {
        self.st & (INV | UNDER) != 0 || self.bg != 0
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct MLine {
    pub c: Vec<(char, MAttr)>,
    /// attributes active at the end
    pub end: MAttr,
}
impl MLine {
    pub fn text(&self) -> String {
        self.c.iter().map(|x| x.0).collect()
    }
}
pub type L = Arc<MLine>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct TermCfg {
    pub w: usize,
    pub h: usize,
    pub vt52: bool,
    pub ncolors: u8,
    pub wob: bool,
}
impl TermCfg {
    pub fn attr(&self, a: MAttr) -> Attr {
        if !self.vt52 {
            const M: [u8; 9] = [DEF, 0, 1, 2, 3, 4, 6, 5, 7];
            debug_assert!(BOLD | DIM | UNDER | INV | ITAL == 31);
            return Attr { st: a.st, fg: M[a.fg as usize], bg: M[a.bg as usize] };
        }
        const BRIGHT: [u8; 8] = [8, 1, 2, 13, 4, 9, 12, 0];
        const DIMC: [u8; 8] = [15, 3, 5, 11, 6, 10, 14, 7];
        const FOUR: [u8; 8] = [15, 1, 2, 2, 3, 2, 1, 0];
        let (df, db) = if self.wob { (0, 15) } else { (15, 0) };
        let get = |c: u8, t: &[u8; 8], d: u8| if c == 0 { d } else { t[c as usize - 1] };
        let (f, b) = match self.ncolors {
            16 if self.wob => (get(a.fg, &BRIGHT, df), get(a.bg, &DIMC, db)),
            16 => (get(a.fg, &DIMC, df), get(a.bg, &BRIGHT, db)),
            4 => (get(a.fg, &FOUR, df), get(a.bg, &FOUR, db)),
            _ => (df, db),
        };
        let (f, b) = if a.st & INV != 0 { (b, f) } else { (f, b) };
        Attr { st: 0, fg: f, bg: b }
    }
    pub fn def(&self) -> Attr {
        if !self.vt52 {
            crate::vt::PLAIN
        } else if self.wob {
            Attr { st: 0, fg: 0, bg: 15 }
        } else {
            Attr { st: 0, fg: 15, bg: 0 }
        }
    }
    /// what a character looks like on this terminal
    fn glyph(&self, c: char) -> char {
        if self.vt52 && c >= '\u{80}' {
            '\u{2206}'
        } else {
            c
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct MRow {
    /// one entry per cell; '\0' is the right half of a wide character
    pub c: Vec<(char, MAttr)>,
    /// attributes that the rest of the row may have besides the default
    pub fill: Vec<MAttr>,
    pub comb: bool,
}
impl MRow {
    pub fn text(&self) -> String {
        self.c.iter().filter(|x| x.0 != '\0').map(|x| x.0).collect::<String>().trim_end().to_string()
    }
}

fn push_cells(cfg: &TermCfg, r: &mut MRow, ch: char, a: MAttr) {
    let n = cw(ch);
    if n == 0 {
        r.comb = true;
        return;
    }
    let g = cfg.glyph(ch);
    r.c.push((g, a));
    for _ in 1..n {
        // a wide character is two placeholder cells on a VT52
        r.c.push((if cfg.vt52 { g } else { '\0' }, a));
    }
}

/// rows of an output line
pub fn layout_out(cfg: &TermCfg, line: &MLine) -> Vec<MRow> {
    let mut rows = vec![MRow::default()];
    for &(ch, a) in &line.c {
        let r = rows.last_mut().unwrap();
        if ch == '\n' {
            r.fill.push(a);
            rows.push(MRow::default());
            continue;
        }
        let n = cw(ch);
        if n > 0 && r.c.len() + n > cfg.w {
            r.fill.push(a);
            rows.push(MRow::default());
        }
        push_cells(cfg, rows.last_mut().unwrap(), ch, a);
        let r = rows.last_mut().unwrap();
        if r.fill.last() != Some(&a) {
            r.fill.push(a);
        }
    }
    rows.last_mut().unwrap().fill.push(line.end);
    rows
}
/// the same for a line given to wrapln: words are kept whole where possible
pub fn wrap_line(cfg: &TermCfg, line: &MLine) -> MLine {
    let mut out = MLine { c: vec![], end: line.end };
    let mut seg: Vec<(char, MAttr)> = vec![];
    let mut segs = vec![];
    for &(c, a) in &line.c {
        if c == '\n' {
            segs.push((std::mem::take(&mut seg), Some(a)));
        } else {
            seg.push((c, a));
        }
    }
    segs.push((seg, None));
    for (seg, nl) in segs {
        let text: String = seg.iter().map(|x| x.0).collect();
        let offs: Vec<usize> = text.char_indices().map(|x| x.0).chain(Some(text.len())).collect();
        let base = text.as_ptr() as usize;
        let mut slices: Vec<(usize, usize)> = textwrap::wrap(&text, cfg.w)
            .iter()
            .filter(|s| !s.is_empty())
            .map(|s| {
                let st = s.as_ptr() as usize - base;
                (st, st + s.len())
            })
            .collect();
        if let Some(l) = slices.last_mut() {
            l.1 = text.len();
        } else if !text.is_empty() {
            slices.push((0, text.len()));
        }
        if let Some(f) = slices.first_mut() {
            f.0 = 0;
        }
        for (i, (s, e)) in slices.iter().enumerate() {
            let a = offs.binary_search(s).unwrap();
            let b = offs.binary_search(e).unwrap();
            if i > 0 {
                let at = out.c.last().map(|x| x.1).unwrap_or_default();
                out.c.push(('\n', at));
            }
            out.c.extend_from_slice(&seg[a..b]);
        }
        if let Some(a) = nl {
            out.c.push(('\n', a));
        }
    }
    out
}
/// rows of the live area and the position of the character at index `at`
pub fn layout_live(cfg: &TermCfg, line: &[(char, MAttr)], at: Option<usize>) -> (Vec<MRow>, Option<(usize, usize)>, Vec<(usize, usize)>) {
    let mut rows = vec![MRow::default()];
    let mut implied = false;
    let mut pos = None;
    let mut alt = vec![];
    for (i, &(ch, a)) in line.iter().enumerate() {
        let n = cw(ch);
        if ch == '\n' {
            if Some(i) == at {
                pos = Some((rows.len() - 1, rows.last().unwrap().c.len()));
            }
            if implied {
                implied = false;
                continue;
            }
            rows.last_mut().unwrap().fill.push(a);
            rows.push(MRow::default());
            continue;
        }
        if n > 1 && rows.last().unwrap().c.len() + n > cfg.w {
            if Some(i) == at {
                alt.push((rows.len() - 1, rows.last().unwrap().c.len()));
            }
            rows.last_mut().unwrap().fill.push(a);
            rows.push(MRow::default());
        }
        if Some(i) == at {
            pos = Some((rows.len() - 1, rows.last().unwrap().c.len()));
        }
        let r = rows.last_mut().unwrap();
        push_cells(cfg, r, ch, a);
        if r.fill.last() != Some(&a) {
            r.fill.push(a);
        }
        implied = false;
        if n > 0 && r.c.len() >= cfg.w {
            rows.push(MRow::default());
            rows.last_mut().unwrap().fill.push(a);
            implied = true;
        }
    }
    if at == Some(line.len()) {
        pos = Some((rows.len() - 1, rows.last().unwrap().c.len()));
    }
    if let Some((r, 0)) = pos {
        // at the start of a row that begins only because the one above is full
        if r > 0 && rows[r - 1].c.len() >= cfg.w {
            alt.push((r - 1, cfg.w - 1));
        }
    }
    (rows, pos, alt)
}

fn vis(mut a: Attr, blank: bool, def: Attr, vt52: bool) -> Attr {
    if blank {
        if vt52 {
            a.fg = def.fg;
        } else {
            a.st &= INV | UNDER;
            // only the color a blank really shows counts
            if a.st == 0 {
                a.fg = def.fg;
            } else if a.st == INV {
                a.bg = def.bg;
            }
        }
    }
    a
}
static BLANK_ROW: Row = vec![];
pub fn row_at(rows: &[Row], i: usize) -> &Row {
    rows.get(i).unwrap_or(&BLANK_ROW)
}
/// does the observed row show the expected one?
pub fn cmp_row(cfg: &TermCfg, m: &MRow, r: &Row, text: bool, style: bool) -> Result<(), String> {
    let def = cfg.def();
    let b = Cell::blank(def);
    for i in 0..cfg.w {
        let o = r.get(i).unwrap_or(&b);
        match m.c.get(i) {
            Some(&(ch, a)) => {
                if text && o.ch != ch {
                    return Err(format!("row should read {:?} but reads {:?} (column {})", m.text(), crate::vt::row_text(r), i));
                }
                if style && ch != '\0' && o.ch == ch {
                    let e = vis(cfg.attr(a), ch == ' ', def, cfg.vt52);
                    let g = vis(o.a, ch == ' ', def, cfg.vt52);
                    if e != g {
                        return Err(format!("{:?} at column {} of row {:?} should have attributes {:?} but has {:?}", ch, i, m.text(), e, g));
                    }
                }
            }
            None => {
                if text && o.ch != ' ' {
                    return Err(format!("row should read {:?} and nothing else but reads {:?}", m.text(), crate::vt::row_text(r)));
                }
                if style && o.ch == ' ' {
                    let g = vis(o.a, true, def, cfg.vt52);
                    let ok = g == vis(def, true, def, cfg.vt52) || m.fill.iter().any(|f| f.fills() && vis(cfg.attr(*f), true, def, cfg.vt52) == g);
                    if !ok {
                        return Err(format!("blank cell at column {} right of {:?} should be default but has attributes {:?}", i, m.text(), g));
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- requests
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Key {
    Ch(char),
    Ctl(u8),
    Esc,
    Up,
    Down,
    Left,
    Right,
    Home,
    End,
    Del,
    /// a character that is none (C1 control): changes nothing, though it may
    /// count as a key press
    Nop,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Resp {
    Input(String),
    Dead,
    Quit,
    Discarded(String),
    Finish,
    Info,
    Break,
    Escape,
    Swap,
    Custom(u32),
    Unknown(u8),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Hist {
    pub lines: Vec<String>,
    pub limit: Option<usize>,
    pub strip: bool,
    pub err: bool,
}
impl Hist {
    pub fn add(&mut self, l: &str) {
        if self.strip {
            self.lines.retain(|x| x != l);
        }
        self.lines.push(l.to_string());
        if let Some(n) = self.limit {
            while self.lines.len() > n {
                self.lines.remove(0);
            }
        }
    }
}
/// what a completor of the harness answers, as a function of what it is given
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum CompKind {
    Nothing,
    InsertPresses,
    InsertOne,
    InsertWide,
    ReplaceUpper,
    ReplaceClearAt0,
    InsertEmpty,
    ReplaceSame,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct CompPlan {
    pub id: u32,
    pub kind: CompKind,
    /// prints a line through its handle on every n-th press
    pub print: bool,
    pub bell: bool,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum CompAns {
    None,
    Insert(String),
    Replace(String, usize),
}
impl CompPlan {
    pub fn answer(&self, input: &str, cursor: usize, presses: u32) -> CompAns {
        match self.kind {
            CompKind::Nothing => CompAns::None,
            CompKind::InsertOne => CompAns::Insert("z".into()),
            CompKind::InsertPresses => CompAns::Insert(format!("<{}>", presses)),
            CompKind::InsertWide => CompAns::Insert("\u{e9}\u{4e2d}".to_string()),
            CompKind::ReplaceUpper => {
                let s = format!("{}!", input.to_uppercase());
                let n = if presses % 2 == 0 { 0 } else { s.len() };
                CompAns::Replace(s, n)
            }
            CompKind::ReplaceClearAt0 => CompAns::Replace("x".to_string(), 0),
            CompKind::InsertEmpty => CompAns::Insert(String::new()),
            CompKind::ReplaceSame => CompAns::Replace(input.to_string(), cursor),
        }
    }
    pub fn line(&self, input: &str, presses: u32) -> String {
        format!("comp{} {} of {} chars", self.id, presses, input.chars().count())
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct CompCall {
    pub id: u32,
    pub input: String,
    pub cursor: usize,
    pub presses: u32,
}

#[derive(Clone, Debug)]
pub enum MK {
    Out(L),
    OutWrap(L),
    Status(Option<L>),
    Prompt { line: Option<L>, allowed: bool, clear: bool },
    Notice(L, u64, u64),
    Bell,
    Custom(u32),
    Suspend(Vec<L>),
    SetComp(Option<usize>),
    Swap(Arc<Hist>, Option<Vec<String>>),
    /// what read_history showed at some moment
    Peek(Vec<String>),
    Bump,
    Key(Key),
    /// the instance ends; nothing after this has any effect
    Die,
}
#[derive(Clone, Debug)]
pub struct MItem {
    pub k: MK,
    pub inv: u64,
    pub ret: u64,
    /// responses that had been read before this was requested
    pub min_resp: usize,
    pub dbg: String,
}
impl MItem {
    /// takes effect in the caller, not in the order of the request queue
    fn immediate(&self) -> bool {
        matches!(self.k, MK::Swap(..) | MK::Peek(_))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Aspects {
    pub out: bool,
    pub live: bool,
    pub cursor: bool,
    pub out_style: bool,
    pub live_style: bool,
    pub resp: bool,
    pub bell: bool,
    pub hist: bool,
    pub comp: bool,
}
pub const ALL: Aspects = Aspects { out: true, live: true, cursor: true, out_style: true, live_style: true, resp: true, bell: true, hist: true, comp: true };
pub const NONE: Aspects = Aspects { out: false, live: false, cursor: false, out_style: false, live_style: false, resp: false, bell: false, hist: false, comp: false };

/// everything observed up to the end of a phase
pub struct Obs {
    pub vt: Vt,
    /// rows of all epochs; the last one is the live one
    pub time: u64,
    pub resp: Vec<Resp>,
    pub calls: Vec<(CompCall, u64)>,
    pub hist: Option<Vec<String>>,
    pub bells: u64,
}
impl Obs {
    fn epoch(&self, i: usize) -> &[Row] {
        if i < self.vt.epochs.len() {
            &self.vt.epochs[i]
        } else {
            &self.vt.rows
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct S {
    pub ep: usize,
    pub row: usize,
    pub resp: usize,
    pub calls: usize,
    pub bells: u64,
    pub status: Option<L>,
    pub prompt: Option<L>,
    pub allowed: bool,
    pub notice: Option<(L, u64, u64)>,
    pub input: Vec<char>,
    pub cur: usize,
    pub clip: Vec<char>,
    pub hist: Arc<Hist>,
    pub hidx: Option<usize>,
    pub orphan: Option<Vec<char>>,
    pub horig: Option<String>,
    pub comp: Option<usize>,
    pub presses: u32,
    pub pend: VecDeque<(PK, u64)>,
    /// history swaps that Liso's thread has not been told of yet
    pub stale: u32,
    pub dead: bool,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum PK {
    Line(L),
    Bell,
}
impl S {
    pub fn new(row: usize) -> S {
        S {
            ep: 0,
            row,
            resp: 0,
            calls: 0,
            bells: 0,
            status: None,
            prompt: None,
            allowed: true,
            notice: None,
            input: vec![],
            cur: 0,
            clip: vec![],
            hist: Arc::new(Hist { lines: vec![], limit: Some(100), strip: true, err: false }),
            hidx: None,
            orphan: None,
            horig: None,
            comp: None,
            presses: 0,
            pend: VecDeque::new(),
            stale: 0,
            dead: false,
        }
    }
    fn zw(&self, i: usize) -> bool {
        cw(self.input[i]) == 0
    }
    pub fn live_line(&self) -> (Vec<(char, MAttr)>, Option<usize>, MAttr) {
        let mut v: Vec<(char, MAttr)> = vec![];
        let mut end = MAttr::default();
        if let Some(s) = &self.status {
            v.extend_from_slice(&s.c);
            v.push(('\n', s.end));
        }
        if let Some((n, _, _)) = &self.notice {
            v.extend_from_slice(&n.c);
            return (v, None, n.end);
        }
        if let Some(p) = &self.prompt {
            v.extend_from_slice(&p.c);
            end = p.end;
        }
        let at = v.len() + self.cur;
        v.extend(self.input.iter().map(|c| (*c, end)));
        (v, Some(at), end)
    }
}

pub struct Ctx<'a> {
    pub cfg: TermCfg,
    pub obs: &'a Obs,
    pub a: Aspects,
    pub comps: &'a [CompPlan],
    pub t0: u64,
    /// rows of the prologue that were there before
    pub fail: (usize, String),
    pub visited: usize,
    pub cap: usize,
    pub overflow: bool,
    pub tall: bool,
    /// responses may have been generated that nobody read
    pub loose: bool,
}
type Out = Result<(), String>;

impl<'a> Ctx<'a> {
    fn row_out(&self, s: &mut S, rows: &[MRow]) -> Out {
        if !self.a.out {
            return Ok(());
        }
        let o = self.obs.epoch(s.ep);
        for m in rows {
            cmp_row(&self.cfg, m, row_at(o, s.row), true, self.a.out_style)
                .map_err(|e| format!("output row {} of screen {}: {}", s.row, s.ep, e))?;
            s.row += 1;
        }
        Ok(())
    }
    fn respond(&self, s: &mut S, r: Resp) -> Out {
        if self.a.resp {
            match self.obs.resp.get(s.resp) {
                Some(x) if *x == r => {}
                Some(x) => return Err(format!("response {} should be {:?} but {:?} was read", s.resp, r, x)),
                None if self.loose => {}
                None => return Err(format!("response {} should be {:?} but none was read", s.resp, r)),
            }
        }
        s.resp += 1;
        Ok(())
    }
    fn bell(&self, s: &mut S) -> Out {
        s.bells += 1;
        if self.a.bell && s.bells > self.obs.bells {
            return Err(format!("bell should have rung at least {} times but rang {} times", s.bells, self.obs.bells));
        }
        Ok(())
    }
    /// the residue left by Control-Z: what was on screen up to the cursor
    fn residue(&self, s: &mut S) -> Out {
        if !self.a.out {
            return Ok(());
        }
        let o = self.obs.epoch(s.ep);
        for n in 0..self.cfg.h {
            let t = crate::vt::row_text(row_at(o, s.row + n));
            if t.ends_with("^Z") {
                s.row += n + 1;
                return Ok(());
            }
            // wrapped in between
            if t.ends_with('^') && crate::vt::row_text(row_at(o, s.row + n + 1)) == "Z" {
                s.row += n + 2;
                return Ok(());
            }
        }
        Err("no trace of ^Z on the terminal".into())
    }
    fn step(&self, s: &mut S, k: &MK) -> Result<Vec<S>, String> {
        let one = |s: &mut S| Ok(vec![s.clone()]);
        match k {
            MK::Out(l) => {
                self.row_out(s, &layout_out(&self.cfg, l))?;
            }
            MK::OutWrap(l) => {
                self.row_out(s, &layout_out(&self.cfg, &wrap_line(&self.cfg, l)))?;
            }
            MK::Status(l) => s.status = l.clone(),
            MK::Prompt { line, allowed, clear } => {
                s.prompt = line.clone();
                s.allowed = *allowed;
                if *clear {
                    s.input.clear();
                    s.hidx = None;
                    s.orphan = None;
                    s.horig = None;
                    s.cur = 0;
                }
            }
            MK::Notice(l, lo, hi) => s.notice = Some((l.clone(), *lo, *hi)),
            MK::Bell => self.bell(s)?,
            MK::Custom(n) => self.respond(s, Resp::Custom(*n))?,
            MK::Suspend(lines) => {
                for l in lines {
                    self.row_out(s, &layout_out(&self.cfg, l))?;
                }
            }
            MK::SetComp(c) => s.comp = *c,
            MK::Swap(new, got) => {
                if self.a.hist {
                    if let Some(g) = got {
                        if *g != s.hist.lines {
                            return Err(format!("swap_history should return {:?} but returned {:?}", s.hist.lines, g));
                        }
                    }
                }
                s.hist = new.clone();
                s.stale += 1;
            }
            MK::Peek(g) => {
                if self.a.hist && *g != s.hist.lines {
                    return Err(format!("history should hold {:?} but read_history showed {:?}", s.hist.lines, g));
                }
            }
            MK::Bump => {
                if s.stale == 0 {
                    return Err("Liso's thread was told of a swap before it took place".into());
                }
                s.stale -= 1;
                if s.hidx.is_some() {
                    s.hidx = None;
                    if let Some(o) = &s.horig {
                        s.hidx = s.hist.lines.iter().rposition(|x| x == o);
                    }
                    match s.hidx {
                        None => {
                            s.orphan = None;
                            s.horig = None;
                        }
                        Some(i) => s.horig = Some(s.hist.lines[i].clone()),
                    }
                }
            }
            MK::Key(key) => return self.key(s, *key),
            MK::Die => s.dead = true,
        }
        one(s)
    }
    fn key(&self, s: &mut S, key: Key) -> Result<Vec<S>, String> {
        if !s.allowed {
            let mut v = vec![s.clone()];
            if s.notice.is_some() {
                // the documentation promises dismissal by a key only while
                // input is allowed; either is fine
                s.notice = None;
                v.push(s.clone());
            }
            return Ok(v);
        }
        if key == Key::Nop {
            let mut v = vec![s.clone()];
            for (n, p) in [(true, false), (false, true), (true, true)] {
                let mut t = s.clone();
                if n {
                    t.notice = None;
                }
                if p {
                    t.presses = 0;
                }
                if !v.contains(&t) {
                    v.push(t);
                }
            }
            return Ok(v);
        }
        if key == Key::Ctl(9) {
            s.presses = s.presses.saturating_add(1);
        } else {
            s.presses = 0;
        }
        s.notice = None;
        let forget = |s: &mut S| {
            s.hidx = None;
            s.orphan = None;
            s.horig = None;
        };
        match key {
            Key::Ch(c) => {
                s.input.insert(s.cur, c);
                s.cur += 1;
            }
            Key::Home | Key::Ctl(1) => s.cur = 0,
            Key::End | Key::Ctl(5) => s.cur = s.input.len(),
            Key::Left | Key::Ctl(2) => {
                if s.cur > 0 {
                    s.cur -= 1;
                    while s.cur > 0 && s.zw(s.cur) {
                        s.cur -= 1;
                    }
                }
            }
            Key::Right | Key::Ctl(6) => {
                if s.cur < s.input.len() {
                    s.cur += 1;
                    while s.cur < s.input.len() && s.zw(s.cur) {
                        s.cur += 1;
                    }
                }
            }
            Key::Ctl(3) => self.respond(s, Resp::Quit)?,
            Key::Ctl(4) => {
                if s.input.is_empty() {
                    self.respond(s, Resp::Finish)?
                } else {
                    s.input.clear();
                    forget(s);
                    s.cur = 0;
                }
            }
            Key::Ctl(7) => {
                let t: String = s.input.drain(..).collect();
                forget(s);
                s.cur = 0;
                self.respond(s, Resp::Discarded(t))?
            }
            Key::Ctl(8) | Key::Ctl(127) => {
                if s.cur > 0 {
                    let e = s.cur;
                    s.cur -= 1;
                    while s.cur > 0 && s.zw(s.cur) {
                        s.cur -= 1;
                    }
                    s.input.drain(s.cur..e);
                }
            }
            Key::Del => {
                if s.cur < s.input.len() {
                    let mut e = s.cur + 1;
                    while e < s.input.len() && s.zw(e) {
                        e += 1;
                    }
                    s.input.drain(s.cur..e);
                }
            }
            Key::Ctl(9) => {
                if let Some(c) = s.comp {
                    let plan = &self.comps[c];
                    let input: String = s.input.iter().collect();
                    let at: usize = s.input[..s.cur].iter().map(|c| c.len_utf8()).sum();
                    let call = CompCall { id: plan.id, input: input.clone(), cursor: at, presses: s.presses };
                    let mut when = 0;
                    if self.a.comp {
                        match self.obs.calls.get(s.calls) {
                            Some((x, t)) if *x == call => when = *t,
                            Some((x, _)) => return Err(format!("completor call {} should be {:?} but was {:?}", s.calls, call, x)),
                            None => return Err(format!("completor call {} should be {:?} but there was none", s.calls, call)),
                        }
                    }
                    s.calls += 1;
                    if plan.print {
                        let l = plain(&plan.line(&input, s.presses));
                        s.pend.push_back((PK::Line(Arc::new(l)), when));
                    }
                    if plan.bell {
                        s.pend.push_back((PK::Bell, when));
                    }
                    match plan.answer(&input, at, s.presses) {
                        CompAns::None => {}
                        CompAns::Insert(t) => {
                            for c in t.chars() {
                                s.input.insert(s.cur, c);
                                s.cur += 1;
                            }
                        }
                        CompAns::Replace(t, at) => {
                            s.cur = t[..at].chars().count();
                            s.input = t.chars().collect();
                        }
                    }
                }
            }
            Key::Ctl(10) | Key::Ctl(13) => {
                let t: String = s.input.drain(..).collect();
                s.cur = 0;
                forget(s);
                let mut h = (*s.hist).clone();
                h.add(&t);
                if h.err {
                    let mut m = plain("Unable to write history: disk on fire");
                    for c in &mut m.c {
                        c.1.st = INV;
                    }
                    m.end.st = INV;
                    s.notice = Some((Arc::new(m), self.t0 + 3_000_000_000, self.obs.time + 3_000_000_000));
                }
                s.hist = Arc::new(h);
                self.respond(s, Resp::Input(t))?
            }
            Key::Ctl(11) => {
                if s.cur < s.input.len() {
                    s.clip = s.input.split_off(s.cur);
                }
            }
            Key::Ctl(12) => {
                if self.a.out {
                    if s.ep >= self.obs.vt.epochs.len() {
                        return Err("Control-L should clear the screen but it was not cleared".into());
                    }
                    // nothing else may have been printed on the old screen
                    let o = self.obs.epoch(s.ep);
                    for i in s.row..o.len() {
                        let r = &o[i];
                        cmp_row(&self.cfg, &MRow::default(), r, true, self.a.out_style)
                            .map_err(|e| format!("left over on screen {} when it was cleared: {}", s.ep, e))?;
                    }
                }
                s.ep += 1;
                s.row = 0;
            }
            Key::Up | Key::Ctl(16) => {
                let n = s.hist.lines.len();
                let p = match s.hidx {
                    None => n.checked_sub(1),
                    Some(x) if x > n => n.checked_sub(1),
                    Some(x) if x > 0 => Some(x - 1),
                    _ => None,
                };
                match p {
                    None => self.bell(s)?,
                    Some(p) => {
                        let l: Vec<char> = s.hist.lines[p].chars().collect();
                        let old = std::mem::replace(&mut s.input, l);
                        if s.orphan.is_none() {
                            s.orphan = Some(old);
                        }
                        s.cur = s.input.len();
                        s.hidx = Some(p);
                    }
                }
                s.horig = s.hidx.and_then(|i| s.hist.lines.get(i).cloned());
            }
            Key::Down | Key::Ctl(14) => {
                let n = s.hist.lines.len();
                match s.hidx {
                    None => self.bell(s)?,
                    Some(x) if x + 1 >= n => {
                        s.input = s.orphan.take().unwrap_or_default();
                        s.cur = s.input.len();
                        s.hidx = None;
                    }
                    Some(x) => {
                        let l: Vec<char> = s.hist.lines[x + 1].chars().collect();
                        let old = std::mem::replace(&mut s.input, l);
                        if s.orphan.is_none() {
                            s.orphan = Some(old);
                        }
                        s.cur = s.input.len();
                        s.hidx = Some(x + 1);
                    }
                }
                s.horig = s.hidx.and_then(|i| s.hist.lines.get(i).cloned());
            }
            Key::Ctl(20) => self.respond(s, Resp::Info)?,
            Key::Ctl(21) => {
                if s.cur > 0 {
                    s.clip = s.input.drain(..s.cur).collect();
                    s.cur = 0;
                }
            }
            Key::Ctl(23) => {
                if s.cur > 0 {
                    let e = s.cur;
                    let n = s.input.len();
                    let sp = |s: &S, i: usize| i < n && (s.input[i].is_whitespace() || s.zw(i));
                    let ns = |s: &S, i: usize| i < n && (!s.input[i].is_whitespace() || s.zw(i));
                    s.cur -= 1;
                    while s.cur > 0 && sp(s, s.cur) {
                        s.cur -= 1;
                    }
                    if s.cur > 0 {
                        while s.cur > 0 && ns(s, s.cur) {
                            s.cur -= 1;
                        }
                        if !(s.cur < n && !s.input[s.cur].is_whitespace()) {
                            s.cur += 1;
                            while s.cur < n && s.cur > 0 && s.zw(s.cur) {
                                s.cur += 1;
                            }
                        }
                    }
                    s.input.drain(s.cur..e);
                }
            }
            Key::Ctl(24) => self.respond(s, Resp::Swap)?,
            Key::Ctl(25) => {
                for c in s.clip.clone() {
                    s.input.insert(s.cur, c);
                    s.cur += 1;
                }
            }
            Key::Ctl(26) => self.residue(s)?,
            Key::Ctl(28) => self.respond(s, Resp::Break)?,
            Key::Nop => {}
            Key::Esc | Key::Ctl(27) => self.respond(s, Resp::Escape)?,
            Key::Ctl(n) => self.respond(s, Resp::Unknown(n))?,
        }
        Ok(vec![s.clone()])
    }
    /// does the final state explain the snapshot?
    fn accept(&mut self, s: &S) -> Result<Vec<S>, String> {
        let o = self.obs;
        if !s.pend.is_empty() {
            return Err("completor output not processed".into());
        }
        if self.a.resp && s.resp != o.resp.len() {
            return Err(format!("{} responses were read but only {} should have been: extra {:?}", o.resp.len(), s.resp, &o.resp[s.resp..]));
        }
        if self.a.comp && s.calls != o.calls.len() {
            return Err(format!("{} completor calls but only {} expected: extra {:?}", o.calls.len(), s.calls, &o.calls[s.calls..]));
        }
        if self.a.bell && s.bells != o.bells {
            return Err(format!("bell rang {} times but should have rung {} times", o.bells, s.bells));
        }
        if self.a.hist {
            if let Some(h) = &o.hist {
                if *h != s.hist.lines {
                    return Err(format!("history should hold {:?} but holds {:?}", s.hist.lines, h));
                }
            }
        }
        if self.a.out && s.ep != o.vt.epochs.len() {
            return Err(format!("screen was cleared {} times but should have been {} times", o.vt.epochs.len(), s.ep));
        }
        let mut cands = vec![];
        match &s.notice {
            None => cands.push(s.clone()),
            Some((_, lo, hi)) => {
                if o.time < *hi {
                    cands.push(s.clone());
                }
                if o.time >= *lo {
                    let mut t = s.clone();
                    t.notice = None;
                    cands.push(t);
                }
            }
        }
        let mut ok = vec![];
        let mut err = String::new();
        for c in cands {
            match self.live(&c) {
                Ok(()) => ok.push(c),
                Err(e) => err = e,
            }
        }
        if ok.is_empty() {
            Err(err)
        } else {
            Ok(ok)
        }
    }
    /// does the state at the end of the instance explain what is left behind?
    fn accept_dead(&self, s: &S) -> Out {
        let o = self.obs;
        if self.a.resp && (s.resp < o.resp.len() || (s.resp > o.resp.len() && !self.loose)) {
            return Err(format!("{} responses were read but {} should have been", o.resp.len(), s.resp));
        }
        if self.a.comp && s.calls != o.calls.len() {
            return Err(format!("{} completor calls but only {} expected: extra {:?}", o.calls.len(), s.calls, &o.calls[s.calls..]));
        }
        if self.a.bell && s.bells != o.bells {
            return Err(format!("bell rang {} times but should have rung {} times", o.bells, s.bells));
        }
        if self.a.out && s.ep != o.vt.epochs.len() {
            return Err(format!("screen was cleared {} times but should have been {} times", o.vt.epochs.len(), s.ep));
        }
        if !self.a.live || !self.a.out {
            return Ok(());
        }
        let rows = o.epoch(s.ep);
        for i in s.row..rows.len() {
            cmp_row(&self.cfg, &MRow::default(), row_at(rows, i), true, self.a.live_style).map_err(|e| format!("left on the terminal after the end (row {}): {}", i, e))?;
        }
        if self.a.cursor {
            let here = (o.vt.abs_row(), o.vt.cx);
            if here != (s.row, 0) {
                return Err(format!("after the end the cursor should be at the start of row {} but is at row {} column {}", s.row, here.0, here.1));
            }
            if !o.vt.visible {
                return Err("the cursor is hidden after the end".into());
            }
            if !o.vt.wrap {
                return Err("line wrap is off after the end".into());
            }
        }
        if self.a.live_style && o.vt.cur != self.cfg.def() {
            return Err(format!("attributes {:?} are still selected after the end", o.vt.cur));
        }
        Ok(())
    }
    fn live(&mut self, s: &S) -> Out {
        if !(self.a.live || self.a.live_style || self.a.cursor) {
            return Ok(());
        }
        let o = self.obs;
        let rows = o.epoch(s.ep);
        let (line, at, end) = s.live_line();
        let (mut m, pos, alt) = layout_live(&self.cfg, &line, at);
        m.last_mut().unwrap().fill.push(end);
        if m.len() + 1 > self.cfg.h {
            self.tall = true;
            return Ok(());
        }
        // without the output aspect the live area's place is where the cursor is
        let base = if self.a.out {
            s.row
        } else {
            let c = o.vt.abs_row();
            let mut b = None;
            let fits = |n: usize| {
                pos.map_or(true, |p| (n, o.vt.cx) == (p.0, p.1.min(self.cfg.w - 1)) || alt.contains(&(n, o.vt.cx)))
            };
            for n in (0..m.len()).filter(|n| fits(*n)).chain((0..m.len()).filter(|n| !fits(*n))) {
                if c >= n && m.iter().enumerate().all(|(i, r)| cmp_row(&self.cfg, r, row_at(rows, c - n + i), true, false).is_ok()) {
                    b = Some(c - n);
                    break;
                }
            }
            b.unwrap_or(c)
        };
        for (i, r) in m.iter().enumerate() {
            cmp_row(&self.cfg, r, row_at(rows, base + i), self.a.live, self.a.live_style)
                .map_err(|e| format!("live area row {} (terminal row {}): {}", i, base + i, e))?;
        }
        if self.a.live {
            for i in base + m.len()..rows.len() {
                cmp_row(&self.cfg, &MRow::default(), row_at(rows, i), true, self.a.live_style)
                    .map_err(|e| format!("stale content below the live area (terminal row {}): {}", i, e))?;
            }
        }
        if self.a.cursor {
            let want = s.allowed && s.notice.is_none();
            if o.vt.visible != want {
                return Err(format!("cursor should be {} but is {}", if want { "visible" } else { "hidden" }, if want { "hidden" } else { "visible" }));
            }
            if want {
                let here = (o.vt.abs_row().wrapping_sub(base), o.vt.cx);
                let pos = pos.unwrap();
                let p2 = (pos.0, pos.1.min(self.cfg.w - 1));
                if here != p2 && !alt.contains(&here) {
                    return Err(format!("cursor should be at row {} column {} of the live area but is at row {} column {}", p2.0, p2.1, here.0 as i64, here.1));
                }
            }
        }
        Ok(())
    }
    /// all states reachable from `s0` by some interleaving that explains the
    /// observation
    pub fn explain(&mut self, s0: &[S], src: &[Vec<MItem>]) -> Vec<S> {
        let mut seen: HashSet<(Vec<u16>, S)> = HashSet::new();
        let mut stack: Vec<(Vec<u16>, S)> = vec![];
        for s in s0 {
            stack.push((vec![0; src.len()], s.clone()));
        }
        let mut done: Vec<S> = vec![];
        while let Some((pos, s)) = stack.pop() {
            if !seen.insert((pos.clone(), s.clone())) {
                continue;
            }
            self.visited += 1;
            if self.visited > self.cap {
                self.overflow = true;
                return done;
            }
            let n: usize = pos.iter().map(|x| *x as usize).sum();
            if s.dead {
                match self.accept_dead(&s) {
                    Ok(()) => {
                        if !done.contains(&s) {
                            done.push(s)
                        }
                    }
                    Err(e) => self.note(n + 1, e),
                }
                continue;
            }
            // outputs of completors, pending in the queue
            if let Some((p, _)) = s.pend.front().cloned() {
                let mut t = s.clone();
                t.pend.pop_front();
                let r = match p {
                    PK::Line(l) => self.row_out(&mut t, &layout_out(&self.cfg, &l)),
                    PK::Bell => self.bell(&mut t),
                };
                match r {
                    Ok(()) => stack.push((pos.clone(), t)),
                    Err(e) => self.note(n, e),
                }
            }
            let mut all = true;
            for i in (0..src.len()).rev() {
                let Some(it) = src[i].get(pos[i] as usize) else { continue };
                all = false;
                // real-time order
                if self.a.resp && s.resp < it.min_resp {
                    continue;
                }
                if !it.immediate() && (0..src.len()).any(|j| j != i && src[j].get(pos[j] as usize).map_or(false, |x| x.ret < it.inv)) {
                    continue;
                }
                if s.pend.iter().any(|x| x.1 > 0 && x.1 < it.inv && it.ret != u64::MAX) {
                    continue;
                }
                let mut t = s.clone();
                match self.step(&mut t, &it.k) {
                    Ok(v) => {
                        let mut p = pos.clone();
                        p[i] += 1;
                        for t in v {
                            stack.push((p.clone(), t));
                        }
                    }
                    Err(e) => {
                        let e = format!("{} [{}]", e, it.dbg);
                        self.note(n, e)
                    }
                }
            }
            if all {
                match self.accept(&s) {
                    Ok(v) => {
                        for t in v {
                            if !done.contains(&t) {
                                done.push(t)
                            }
                        }
                    }
                    Err(e) => self.note(n + 1, e),
                }
            }
        }
        done
    }
    fn note(&mut self, n: usize, e: String) {
        if std::env::var_os("LISOSIM_NOTES").is_some() {
            println!("note {} {}", n, e);
        }
        if n >= self.fail.0 {
            self.fail = (n, e);
        }
    }
}

pub fn plain(s: &str) -> MLine {
    MLine { c: s.chars().map(|c| (c, MAttr::default())).collect(), end: MAttr::default() }
}
