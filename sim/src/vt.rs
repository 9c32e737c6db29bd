//! Terminal emulators: an ANSI (xterm-like) one and a VT52/Atari one.
//! They interpret every byte the simulated tty receives.
use unicode_width::UnicodeWidthChar;

pub const BOLD: u8 = 1;
pub const DIM: u8 = 2;
pub const UNDER: u8 = 4;
pub const INV: u8 = 8;
pub const ITAL: u8 = 16;
pub const DEF: u8 = 255;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Attr {
    pub st: u8,
    pub fg: u8,
    pub bg: u8,
}
pub const PLAIN: Attr = Attr { st: 0, fg: DEF, bg: DEF };

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Cell {
    /// '\0' = right half of a wide character
    pub ch: char,
    pub comb: String,
    pub a: Attr,
    /// written by the application (false: blank from clearing/scrolling)
    pub written: bool,
}
impl Cell {
    pub fn blank(a: Attr) -> Cell {
        Cell { ch: ' ', comb: String::new(), a, written: false }
    }
}
pub type Row = Vec<Cell>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Ansi,
    Vt52,
}

#[derive(Clone, Debug)]
enum Ps {
    Ground,
    Esc,
    Csi(Vec<u8>),
    Osc,
    V52Arg(u8, Vec<u8>, usize),
}

#[derive(Clone)]
pub struct Vt {
    pub kind: Kind,
    pub w: usize,
    pub h: usize,
    /// rows that scrolled off the top, then `h` rows of screen
    pub rows: Vec<Row>,
    pub top: usize,
    /// contents archived by each full clear
    pub epochs: Vec<Vec<Row>>,
    pub cy: usize,
    pub cx: usize,
    pub pending_wrap: bool,
    pub cur: Attr,
    pub def: Attr,
    pub wrap: bool,
    pub visible: bool,
    pub bells: u64,
    pub bce: bool,
    pub ncolors: u8,
    /// things a sane program never sends (unknown sequences, stray controls)
    pub odd: Vec<String>,
    pub wide_margin: u64,
    ps: Ps,
    utf: Vec<u8>,
    last: Option<(usize, usize)>,
    pub bytes: u64,
    v52_inv: bool,
    /// the cursor was put in the home position by absolute addressing and
    /// nothing was printed or moved since: erasing forward erases everything
    homed: bool,
    /// nothing was printed since the screen was cleared
    fresh: bool,
}

pub fn cw(c: char) -> usize {
    UnicodeWidthChar::width(c).unwrap_or(0)
}

impl Vt {
    pub fn new(kind: Kind, w: usize, h: usize, bce: bool, def: Attr, ncolors: u8) -> Vt {
        let w = if w == 0 { 80 } else { w };
        Vt {
            kind,
            w,
            h,
            rows: vec![vec![Cell::blank(def); w]; h],
            top: 0,
            epochs: vec![],
            cy: 0,
            cx: 0,
            pending_wrap: false,
            cur: def,
            def,
            wrap: true,
            visible: true,
            bells: 0,
            bce,
            ncolors,
            odd: vec![],
            wide_margin: 0,
            ps: Ps::Ground,
            utf: vec![],
            last: None,
            bytes: 0,
            v52_inv: false,
            homed: false,
            fresh: false,
        }
    }
    /// index of the cursor row counted from the first row of this epoch
    pub fn abs_row(&self) -> usize {
        self.top + self.cy
    }
    fn blank(&self) -> Cell {
        let mut a = self.def;
        if self.bce {
            a.bg = self.cur.bg;
            if self.kind == Kind::Ansi {
                a.st = 0
            }
        }
        Cell::blank(a)
    }
    pub fn feed(&mut self, data: &[u8]) {
        self.bytes += data.len() as u64;
        for &b in data {
            self.byte(b)
        }
    }
    fn oddity(&mut self, s: String) {
        if self.odd.len() < 20 {
            self.odd.push(s)
        }
    }
    fn byte(&mut self, b: u8) {
        match self.kind {
            Kind::Ansi => self.byte_ansi(b),
            Kind::Vt52 => self.byte_vt52(b),
        }
    }
    fn ctl(&mut self, b: u8) {
        match b {
            7 => self.bells += 1,
            8 => {
                self.pending_wrap = false;
                self.cx = self.cx.saturating_sub(1);
                self.last = None;
            }
            9 => {
                self.oddity("TAB".into());
                self.cx = ((self.cx / 8 + 1) * 8).min(self.w - 1)
            }
            10 => self.lf(),
            13 => {
                self.cx = 0;
                self.pending_wrap = false;
                self.last = None;
            }
            _ => self.oddity(format!("control byte {:#04x}", b)),
        }
    }
    fn lf(&mut self) {
        self.homed = false;
        self.fresh = false;
        self.pending_wrap = false;
        self.last = None;
        if self.cy + 1 < self.h {
            self.cy += 1
        } else {
            let b = self.blank();
            self.rows.push(vec![b; self.w]);
            self.top += 1;
        }
    }
    fn put(&mut self, ch: char) {
        let w = cw(ch);
        self.homed = false;
        self.fresh = false;
        if w == 0 {
            // a combining or invisible character belongs to the previous cell
            let at = match self.last {
                Some(x) => Some(x),
                None if self.cx > 0 => Some((self.top + self.cy, self.cx - 1)),
                None => None,
            };
            if let Some((r, mut c)) = at {
                if self.rows[r][c].ch == '\0' && c > 0 {
                    c -= 1
                }
                self.rows[r][c].comb.push(ch);
            }
            return;
        }
        if self.pending_wrap && self.wrap {
            self.cx = 0;
            self.lf();
        }
        if w == 2 && self.cx + 2 > self.w {
            self.wide_margin += 1;
            if self.wrap {
                self.cx = 0;
                self.lf();
            } else if self.w >= 2 {
                self.cx = self.w - 2;
            }
        }
        let r = self.top + self.cy;
        for i in 0..w {
            self.smash(r, self.cx + i);
        }
        let a = self.cur;
        self.rows[r][self.cx] = Cell { ch, comb: String::new(), a, written: true };
        if w == 2 && self.cx + 1 < self.w {
            self.rows[r][self.cx + 1] = Cell { ch: '\0', comb: String::new(), a, written: true };
        }
        self.last = Some((r, self.cx));
        if self.cx + w >= self.w {
            self.cx = self.w - 1;
            self.pending_wrap = true;
        } else {
            self.cx += w;
            self.pending_wrap = false;
        }
    }
    /// overwriting one half of a wide character blanks the other half
    fn smash(&mut self, r: usize, c: usize) {
        if c >= self.w {
            return;
        }
        if self.rows[r][c].ch == '\0' && c > 0 {
            self.rows[r][c - 1].ch = ' ';
            self.rows[r][c - 1].comb.clear();
        }
        if c + 1 < self.w && self.rows[r][c + 1].ch == '\0' {
            self.rows[r][c + 1].ch = ' ';
        }
    }
    fn erase(&mut self, r: usize, from: usize, to: usize) {
        let b = self.blank();
        for c in from..to {
            self.smash(r, c);
            self.rows[r][c] = b.clone();
        }
    }
    fn ed(&mut self, n: u32) {
        self.last = None;
        self.pending_wrap = false;
        let r0 = self.top + self.cy;
        match n {
            0 if self.homed => self.clear_all(),
            0 => {
                self.erase(r0, self.cx, self.w);
                for r in self.cy + 1..self.h {
                    self.erase(self.top + r, 0, self.w)
                }
            }
            1 => {
                self.erase(r0, 0, self.cx + 1);
                for r in 0..self.cy {
                    self.erase(self.top + r, 0, self.w)
                }
            }
            _ => self.clear_all(),
        }
    }
    fn clear_all(&mut self) {
        let old = std::mem::take(&mut self.rows);
        self.epochs.push(old);
        self.homed = false;
        self.fresh = true;
        let b = self.blank();
        self.rows = vec![vec![b; self.w]; self.h];
        self.top = 0;
    }
    fn el(&mut self, n: u32) {
        self.last = None;
        self.pending_wrap = false;
        let r = self.top + self.cy;
        match n {
            0 => self.erase(r, self.cx, self.w),
            1 => self.erase(r, 0, self.cx + 1),
            _ => self.erase(r, 0, self.w),
        }
    }
    fn byte_ansi(&mut self, b: u8) {
        match std::mem::replace(&mut self.ps, Ps::Ground) {
            Ps::Ground => {
                if !self.utf.is_empty() || b >= 0x80 {
                    self.utf.push(b);
                    let need = match self.utf[0] {
                        0xC0..=0xDF => 2,
                        0xE0..=0xEF => 3,
                        0xF0..=0xF7 => 4,
                        _ => 1,
                    };
                    if self.utf.len() >= need {
                        let v = std::mem::take(&mut self.utf);
                        match std::str::from_utf8(&v) {
                            Ok(s) => {
                                let c = s.chars().next().unwrap();
                                if c.is_control() {
                                    self.oddity(format!("C1 control U+{:04X}", c as u32))
                                } else {
                                    self.put(c)
                                }
                            }
                            Err(_) => self.oddity(format!("invalid UTF-8 {:x?}", v)),
                        }
                    }
                    return;
                }
                match b {
                    0x1b => self.ps = Ps::Esc,
                    0..=0x1f | 0x7f => self.ctl(b),
                    _ => self.put(b as char),
                }
            }
            Ps::Esc => match b {
                b'[' => self.ps = Ps::Csi(vec![]),
                b']' => self.ps = Ps::Osc,
                _ => self.oddity(format!("ESC {:?}", b as char)),
            },
            Ps::Osc => {
                self.oddity("OSC".into());
                if b != 7 {
                    self.ps = Ps::Osc
                }
            }
            Ps::Csi(mut v) => {
                if (0x40..=0x7e).contains(&b) {
                    self.csi(&v, b)
                } else if (0x20..=0x3f).contains(&b) {
                    v.push(b);
                    self.ps = Ps::Csi(v)
                } else {
                    self.oddity(format!("byte {:#x} inside CSI", b));
                }
            }
            Ps::V52Arg(..) => unreachable!(),
        }
    }
    fn csi(&mut self, v: &[u8], fin: u8) {
        let s = String::from_utf8_lossy(v).to_string();
        let (private, s) = match s.strip_prefix('?') {
            Some(r) => (true, r.to_string()),
            None => (false, s),
        };
        let ps: Vec<Option<u32>> = s.split(|c| c == ';' || c == ':').map(|x| x.parse().ok()).collect();
        let p = |i: usize, d: u32| -> u32 { ps.get(i).copied().flatten().unwrap_or(d) };
        let n1 = p(0, 1).max(1) as usize;
        if private {
            match (fin, p(0, 0)) {
                (b'h', 25) => self.visible = true,
                (b'l', 25) => self.visible = false,
                (b'h', 7) => self.wrap = true,
                (b'l', 7) => self.wrap = false,
                _ => self.oddity(format!("CSI ?{}{}", s, fin as char)),
            }
            return;
        }
        match fin {
            b'A' | b'B' | b'C' | b'D' | b'G' | b'H' | b'f' | b'E' | b'F' | b'd' => {
                self.last = None;
                self.pending_wrap = false;
                match fin {
                    b'A' => self.cy = self.cy.saturating_sub(n1),
                    b'B' => self.cy = (self.cy + n1).min(self.h - 1),
                    b'C' => self.cx = (self.cx + n1).min(self.w - 1),
                    b'D' => self.cx = self.cx.saturating_sub(n1),
                    b'G' => self.cx = (n1 - 1).min(self.w - 1),
                    b'd' => self.cy = (n1 - 1).min(self.h - 1),
                    b'E' => {
                        self.cy = (self.cy + n1).min(self.h - 1);
                        self.cx = 0
                    }
                    b'F' => {
                        self.cy = self.cy.saturating_sub(n1);
                        self.cx = 0
                    }
                    _ => {
                        self.cy = (p(0, 1).max(1) as usize - 1).min(self.h - 1);
                        self.cx = (p(1, 1).max(1) as usize - 1).min(self.w - 1);
                    }
                }
                self.homed = matches!(fin, b'H' | b'f') && self.cx == 0 && self.cy == 0 && !self.fresh;
            }
            b'J' => self.ed(p(0, 0)),
            b'K' => self.el(p(0, 0)),
            b'm' => self.sgr(&ps),
            _ => self.oddity(format!("CSI {}{}", s, fin as char)),
        }
    }
    fn sgr(&mut self, ps: &[Option<u32>]) {
        let mut i = 0;
        while i < ps.len() {
            let n = ps[i].unwrap_or(0);
            let c = &mut self.cur;
            match n {
                0 => *c = self.def,
                1 => c.st |= BOLD,
                2 => c.st |= DIM,
                3 => c.st |= ITAL,
                4 => c.st |= UNDER,
                7 => c.st |= INV,
                22 => c.st &= !(BOLD | DIM),
                23 => c.st &= !ITAL,
                24 => c.st &= !UNDER,
                27 => c.st &= !INV,
                30..=37 => c.fg = (n - 30) as u8,
                40..=47 => c.bg = (n - 40) as u8,
                90..=97 => c.fg = (n - 90 + 8) as u8,
                100..=107 => c.bg = (n - 100 + 8) as u8,
                39 => c.fg = DEF,
                49 => c.bg = DEF,
                38 | 48 => {
                    if ps.get(i + 1).copied().flatten() == Some(5) {
                        let v = ps.get(i + 2).copied().flatten().unwrap_or(0) as u8;
                        if n == 38 {
                            c.fg = v
                        } else {
                            c.bg = v
                        }
                        i += 2;
                    } else {
                        self.oddity(format!("SGR {:?}", ps));
                    }
                }
                _ => self.oddity(format!("SGR {:?}", ps)),
            }
            i += 1;
        }
    }
    fn byte_vt52(&mut self, b: u8) {
        match std::mem::replace(&mut self.ps, Ps::Ground) {
            Ps::Esc => match b {
                b'A' => self.mv(|s| s.cy = s.cy.saturating_sub(1)),
                b'B' => self.mv(|s| s.cy = (s.cy + 1).min(s.h - 1)),
                b'C' => self.mv(|s| s.cx = (s.cx + 1).min(s.w - 1)),
                b'D' => self.mv(|s| s.cx = s.cx.saturating_sub(1)),
                b'H' => {
                    self.mv(|s| {
                        s.cx = 0;
                        s.cy = 0
                    });
                    self.homed = true
                }
                b'E' => {
                    self.clear_all();
                    self.mv(|s| {
                        s.cx = 0;
                        s.cy = 0
                    })
                }
                b'J' => {
                    self.ed(0)
                }
                b'K' => self.el(0),
                b'Y' => self.ps = Ps::V52Arg(b'Y', vec![], 2),
                b'b' | b'c' => self.ps = Ps::V52Arg(b, vec![], 1),
                b'e' => self.visible = true,
                b'f' => self.visible = false,
                b'v' => self.wrap = true,
                b'w' => self.wrap = false,
                b'p' => self.v52_inv = true,
                b'q' => self.v52_inv = false,
                _ => self.oddity(format!("VT52 ESC {:?} ({:#x})", b as char, b)),
            },
            Ps::V52Arg(op, mut v, n) => {
                v.push(b);
                if v.len() < n {
                    self.ps = Ps::V52Arg(op, v, n);
                    return;
                }
                match op {
                    b'Y' => {
                        self.pending_wrap = false;
                        self.last = None;
                        self.cy = (v[0].wrapping_sub(32) as usize).min(self.h - 1);
                        self.cx = (v[1].wrapping_sub(32) as usize).min(self.w - 1);
                        self.homed = self.cx == 0 && self.cy == 0;
                    }
                    b'b' => {
                        self.v52_color_ok(v[0]);
                        self.cur.fg = v[0] & 15
                    }
                    b'c' => {
                        self.v52_color_ok(v[0]);
                        self.cur.bg = v[0] & 15
                    }
                    _ => {}
                }
            }
            _ => match b {
                0x1b => self.ps = Ps::Esc,
                0..=0x1f => self.ctl(b),
                0x80..=0xff => self.oddity(format!("8-bit byte {:#x} sent to a VT52", b)),
                0x7f => self.put('\u{2206}'),
                _ => self.put(b as char),
            },
        }
    }
    fn v52_color_ok(&mut self, b: u8) {
        if !(0x20..0x30).contains(&b) {
            self.oddity(format!("VT52 color byte {:#x}", b))
        }
    }
    fn mv(&mut self, f: impl FnOnce(&mut Self)) {
        self.homed = false;
        self.last = None;
        self.pending_wrap = false;
        f(self)
    }
    pub fn dump(&self) -> Vec<String> {
        let mut v = vec![];
        let last = self
            .rows
            .iter()
            .rposition(|r| r.iter().any(|c| c.ch != ' ' || c.a != self.def))
            .map(|x| x + 1)
            .unwrap_or(0)
            .max(self.abs_row() + 1);
        for (i, r) in self.rows[..last].iter().enumerate() {
            let mut s = row_text(r);
            if i == self.abs_row() {
                s.push_str(&format!("   <-- cursor col {}{}{}", self.cx, if self.pending_wrap { "+" } else { "" }, if self.visible { "" } else { " hidden" }));
            }
            v.push(s)
        }
        v
    }
}

pub fn row_text(r: &[Cell]) -> String {
    let mut s = String::new();
    for c in r {
        if c.ch != '\0' {
            s.push(c.ch);
            s.push_str(&c.comb)
        }
    }
    s.trim_end().to_string()
}
