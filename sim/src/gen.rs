//! Generation of lines, terminals, knobs and keyboard bytes from the
//! generation tape, plus the reference decoder of keyboard bytes.
use crate::exec::Setup;
use crate::kernel::{Knobs, MS};
use crate::model::*;
use crate::rng::Tape;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Ln {
    /// the calls that build the line
    pub parts: Vec<(MAttr, String)>,
    pub m: L,
}
pub fn is_ctl(c: char) -> bool {
    (c.is_control() && c != '\n') || c == '\u{2028}' || c == '\u{2029}'
}
/// the text of a line as Liso shows it: control characters made visible
pub fn mline(parts: &[(MAttr, String)]) -> MLine {
    let mut l = MLine::default();
    for (a, s) in parts {
        for c in s.chars() {
            if is_ctl(c) {
                let n = c as u32;
                let v = if n < 32 { format!("^{}", (64 + n as u8) as char) } else { format!("U+{:04X}", n) };
                let b = MAttr { st: a.st ^ crate::vt::INV, ..*a };
                l.c.extend(v.chars().map(|c| (c, b)));
            } else {
                l.c.push((c, *a));
            }
        }
        l.end = *a;
    }
    l
}
impl Ln {
    pub fn new(mut parts: Vec<(MAttr, String)>) -> Ln {
        let n = parts.len();
        let mut i = 0;
        parts.retain(|p| {
            i += 1;
            !p.1.is_empty() || n == 1
        });
        let m = Arc::new(mline(&parts));
        Ln { parts, m }
    }
    pub fn plain(s: &str) -> Ln {
        Ln::new(vec![(MAttr::default(), s.to_string())])
    }
    pub fn build(&self) -> liso::Line {
        // every way to build a line has to yield the same line; which one is
        // taken depends on the text only
        let mut h = 0usize;
        for (a, s) in &self.parts {
            h = s.bytes().fold(h.wrapping_mul(31) + a.st as usize + a.fg as usize, |h, b| h.wrapping_mul(31).wrapping_add(b as usize));
        }
        h ^= h >> 7;
        if let [(MAttr { st: 0, fg: 0, bg: 0 }, s)] = &self.parts[..] {
            match h % 8 {
                0 => return liso::Line::from_str(s),
                1 => return liso::Line::from_string(s.clone()),
                2 => return s.as_str().into(),
                3 => return liso::liso!(s),
                _ => (),
            }
        }
        let mut l = liso::Line::new();
        for (a, s) in &self.parts {
            let (st, fg, bg) = (style(a.st), color(a.fg), color(a.bg));
            match h % 8 {
                0 => {
                    l.set_colors(fg, bg);
                    let old = l.get_style();
                    l.toggle_style(old ^ st);
                    l.add_text(s.clone());
                }
                1 => {
                    l.deactivate_style(!st).activate_style(st);
                    l.set_bg_color(bg).set_fg_color(fg);
                    l.add_text(s);
                }
                2 => {
                    let mut part = liso::Line::new();
                    part.set_fg_color(fg).set_bg_color(bg).set_style(st).add_text(s);
                    l.append_line(&part);
                }
                3 => {
                    l.reset_all();
                    l.set_style(st).set_colors(fg, bg);
                    for c in s.chars() {
                        l.add_text(c.to_string());
                    }
                }
                4 => {
                    l.clear_style().toggle_style(liso::Style::INVERSE).toggle_style(liso::Style::INVERSE);
                    l.add_text("");
                    l.activate_style(st);
                    l.set_colors(None, bg).set_fg_color(fg);
                    l.add_text(s);
                }
                5 => {
                    liso::liso_add!(l, reset, s.chars().take(0).collect::<String>());
                    liso::liso_add!(l, fg = fg, bg = bg);
                    l.set_style(st).add_text(s);
                }
                _ => {
                    l.set_style(st);
                    l.set_colors(fg, bg);
                    l.add_text(s.as_str());
                }
            }
        }
        l
    }
    pub fn text(&self) -> String {
        self.parts.iter().map(|p| p.1.as_str()).collect()
    }
}
pub fn style(s: u8) -> liso::Style {
    let mut r = liso::Style::PLAIN;
    for (b, f) in [
        (crate::vt::BOLD, liso::Style::BOLD),
        (crate::vt::DIM, liso::Style::DIM),
        (crate::vt::UNDER, liso::Style::UNDERLINE),
        (crate::vt::INV, liso::Style::INVERSE),
        (crate::vt::ITAL, liso::Style::ITALIC),
    ] {
        if s & b != 0 {
            r |= f;
        }
    }
    r
}
pub fn color(c: u8) -> Option<liso::Color> {
    use liso::Color::*;
    [None, Some(Black), Some(Red), Some(Green), Some(Yellow), Some(Blue), Some(Cyan), Some(Magenta), Some(White)][c as usize]
}

pub const WIDE: [char; 4] = ['\u{4e2d}', '\u{1F642}', '\u{ff21}', '\u{6587}'];
pub const NARROW: [char; 3] = ['\u{e9}', '\u{3b1}', '\u{42f}'];
pub const COMB: [char; 2] = ['\u{301}', '\u{200d}'];
/// blanks outside of ASCII (a wide one, a narrow one)
pub const BLANK: [char; 2] = ['\u{3000}', '\u{2003}'];
pub const CTLS: [char; 8] = ['\u{1b}', '\u{7}', '\t', '\r', '\u{8}', '\u{7f}', '\u{9b}', '\u{2028}'];

#[derive(Clone, Debug)]
pub struct LineMix {
    pub style: f64,
    pub wide: f64,
    pub ctl: f64,
    pub nl: f64,
    pub long: f64,
}
pub fn gen_attr(t: &mut Tape) -> MAttr {
    let st = *t.pick(&[0u8, 0, 1, 8, 4, 2, 16, 9, 31, 5]);
    let fg = if t.chance(0.5) { t.int(1, 8) as u8 } else { 0 };
    let bg = if t.chance(0.35) { t.int(1, 8) as u8 } else { 0 };
    MAttr { st, fg, bg }
}
/// target length biased towards the interesting boundaries of the width
pub fn gen_len(t: &mut Tape, w: usize, long: f64, min: usize) -> usize {
    if !t.chance(long) {
        return t.int(min as i64, (min + 6) as i64) as usize;
    }
    let w = w as i64;
    let k = *t.pick(&[w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 3 * w]);
    (k.max(min as i64) as usize).min(130)
}
/// a line whose text starts with `tag`
pub fn gen_line(t: &mut Tape, m: &LineMix, w: usize, tag: &str, maxlen: usize) -> Ln {
    t.span(|t| {
        let len = gen_len(t, w, m.long, tag.chars().count()).min(maxlen.max(tag.chars().count()));
        let mut parts: Vec<(MAttr, String)> = vec![];
        let mut a = if t.chance(m.style) { gen_attr(t) } else { MAttr::default() };
        let mut s = tag.to_string();
        let mut n = tag.chars().count();
        let exotic = t.chance(m.wide);
        let ctls = t.chance(m.ctl);
        while n < len {
            if t.chance(m.style * 0.15) {
                if !s.is_empty() {
                    parts.push((a, std::mem::take(&mut s)));
                }
                a = gen_attr(t);
            }
            let c = match t.weighted(&[80, if exotic { 14 } else { 0 }, if exotic { 6 } else { 0 }, if exotic { 4 } else { 0 }, if ctls { 12 } else { 0 }, (m.nl * 100.0) as u32, 14]) {
                0 => (b'a' + (n % 26) as u8) as char,
                1 => *t.pick(&WIDE),
                2 => *t.pick(&NARROW),
                3 => *t.pick(&COMB),
                4 => *t.pick(&CTLS),
                5 => '\n',
                _ => ' ',
            };
            s.push(c);
            n += 1;
        }
        if !s.is_empty() || parts.is_empty() {
            parts.push((a, s));
        }
        if t.chance(m.style * 0.3) {
            // attributes left active at the end without text
            parts.push((gen_attr(t), String::new()));
        }
        Ln::new(parts)
    })
}
/// text for wrapln: words separated by single blanks
pub fn gen_words(t: &mut Tape, m: &LineMix, w: usize, tag: &str) -> Ln {
    t.span(|t| {
        let len = gen_len(t, w, m.long.max(0.5), tag.len());
        let mut parts: Vec<(MAttr, String)> = vec![];
        let mut a = if t.chance(m.style) { gen_attr(t) } else { MAttr::default() };
        let mut s = tag.to_string();
        let mut n = tag.len();
        let exotic = t.chance(m.wide);
        while n < len {
            s.push(' ');
            let k = *t.pick(&[1usize, 3, 2, 5, 8, 4, 13, 30]);
            for i in 0..k {
                if t.chance(m.style * 0.1) {
                    parts.push((a, std::mem::take(&mut s)));
                    a = gen_attr(t);
                }
                s.push(match t.weighted(&[90, if exotic { 8 } else { 0 }, if exotic { 8 } else { 0 }]) {
                    0 => (b'a' + (i % 26) as u8) as char,
                    1 => *t.pick(&NARROW),
                    _ => *t.pick(&WIDE),
                });
            }
            n += k + 1;
        }
        if t.chance(m.nl) {
            s.push_str("\nnext words here");
        }
        parts.push((a, s));
        Ln::new(parts)
    })
}

pub struct TermChoice {
    pub cfg: TermCfg,
    pub term: &'static str,
    pub bce: bool,
    pub prefill: usize,
    /// does the terminal report its size? (0: yes, 1: as zero, 2: no)
    pub size: u8,
}
fn gen_size(t: &mut Tape, w: usize) -> u8 {
    if w == 80 && t.chance(0.25) {
        *t.pick(&[1u8, 2])
    } else {
        0
    }
}
pub fn gen_term(t: &mut Tape, p52: f64, narrow: f64) -> TermChoice {
    t.span(|t| {
        let bce = !t.chance(0.3);
        if t.chance(p52) {
            let wob = t.chance(0.3);
            let (term, w, h, ncolors) = match t.weighted(&[3, 2, 2, 1, 1]) {
                0 => ("vt52", *t.pick(&[40usize, 20, 80, 12]), 24, 2),
                1 => ("st52", 80, 25, 4),
                2 => ("st52-color", 40, 25, 16),
                3 => ("st52", 80, 50, 2),
                _ => ("tt52", *t.pick(&[30usize, 20, 16]), 24, 16),
            };
            return TermChoice { cfg: TermCfg { w, h, vt52: true, ncolors, wob }, term, bce, prefill: t.int(0, 6) as usize, size: if term == "vt52" { gen_size(t, w) } else { 0 } };
        }
        let w = if t.chance(narrow) { *t.pick(&[9usize, 5, 7, 4, 12]) } else { *t.pick(&[20usize, 40, 30, 80, 16]) };
        let h = if w < 13 {
            60
        } else if t.chance(0.15) {
            24
        } else {
            40
        };
        let prefill = if t.chance(0.3) { h + 2 } else { t.int(0, 5) as usize };
        TermChoice { cfg: TermCfg { w, h, vt52: false, ncolors: 8, wob: false }, term: *t.pick(&["xterm", "xterm-256color", "screen", "linux"]), bce, prefill, size: gen_size(t, w) }
    })
}
pub struct KnobMix {
    pub stall: f64,
    pub edges: f64,
    pub reads: f64,
}
pub fn gen_knobs(t: &mut Tape, m: &KnobMix) -> Knobs {
    t.span(|t| {
        let mut k = Knobs::default();
        k.p_switch = *t.pick(&[0.0, 0.02, 0.1, 0.3, 0.6]);
        k.edge_mean = if t.chance(m.edges) { *t.pick(&[400u32, 60, 15, 2000]) } else { 0 };
        k.pct = t.chance(0.25);
        if k.pct {
            k.p_switch = *t.pick(&[0.002, 0.01, 0.05]);
        }
        if t.chance(m.stall) {
            k.p_stall = *t.pick(&[0.002, 0.01]);
        }
        k.spin_max = *t.pick(&[2u64, 2, 2, 2, 2, 40, 1500]);
        if t.chance(0.2) {
            k.p_spurious = 0.1;
        }
        if t.chance(m.reads) {
            k.p_short_read = *t.pick(&[0.3, 0.8]);
        }
        if t.chance(m.reads) {
            k.p_eintr = 0.2;
        }
        if k.p_stall > 0.0 {
            k.p_short_read = 0.0;
        }
        if t.chance(0.12) {
            k.p_eintr_w = *t.pick(&[0.05, 0.4]);
        }
        if t.chance(0.3) {
            k.p_short_write = *t.pick(&[0.2, 0.6]);
        }
        k
    })
}
pub fn setup(tc: &TermChoice, kn: Knobs) -> Setup {
    let mut s = Setup::tty(tc.cfg, kn);
    s.term = tc.term;
    s.bce = tc.bce;
    s.prefill = tc.prefill;
    s.size = tc.size;
    s
}

// ------------------------------------------------------------------- keyboard
#[derive(Clone, Debug, Default)]
pub struct KeyMix {
    pub ascii: u32,
    pub exotic: u32,
    pub mov: u32,
    pub del: u32,
    pub kill: u32,
    pub hist: u32,
    pub sig: u32,
    pub ret: u32,
    pub tab: u32,
    pub esc: u32,
    pub clear: u32,
    pub stop: u32,
    pub unknown: u32,
    /// raw byte soup, malformed UTF-8, unknown sequences
    pub junk: u32,
}
/// one key press as the bytes the terminal sends
pub fn gen_key(t: &mut Tape, m: &KeyMix, vt52: bool) -> Vec<u8> {
    let one = |c: u8| vec![c];
    let x = if vt52 { 0 } else { 1 };
    match t.weighted(&[m.ascii, m.exotic * x, m.mov, m.del, m.kill, m.hist, m.sig, m.ret, m.tab, m.esc, m.clear, m.stop, m.unknown, m.junk]) {
        0 => one(*t.pick(b"abcdefgh  xyz-,Q")),
        1 => {
            let c = match t.below(7) {
                0 | 1 => *t.pick(&NARROW),
                2 | 3 => *t.pick(&WIDE),
                4 | 5 => *t.pick(&COMB),
                _ => *t.pick(&BLANK),
            };
            c.to_string().into_bytes()
        }
        2 => {
            if vt52 || t.chance(0.4) {
                one(*t.pick(&[2u8, 6, 1, 5]))
            } else {
                t.pick(&[b"\x1b[D".to_vec(), b"\x1b[C".to_vec(), b"\x1b[H".to_vec(), b"\x1b[F".to_vec()]).clone()
            }
        }
        3 => match t.below(if vt52 { 3 } else { 4 }) {
            0 => one(0x7f),
            1 => one(8),
            2 => one(0x17),
            _ => b"\x1b[3~".to_vec(),
        },
        4 => one(*t.pick(&[0x0bu8, 0x15, 0x19, 0x19])),
        5 => {
            if vt52 || t.chance(0.4) {
                one(*t.pick(&[16u8, 14]))
            } else {
                t.pick(&[b"\x1b[A".to_vec(), b"\x1b[B".to_vec()]).clone()
            }
        }
        6 => one(*t.pick(&[7u8, 4, 3, 20, 24, 28])),
        7 => one(*t.pick(b"\r\n")),
        8 => one(9),
        9 => one(0x1b),
        10 => one(12),
        11 => one(26),
        12 => one(*t.pick(&[0u8, 15, 17, 18, 19, 22, 29, 30, 31])),
        _ => {
            if vt52 {
                match t.below(4) {
                    0 => one(t.int(0x80, 0xff) as u8),
                    1 => match t.int(0x20, 0x7e) as u8 {
                        b'/' => vec![0x1b, b'A'],
                        x => vec![0x1b, x],
                    },
                    2 => vec![0x1b, b'/', *t.pick(b"KZ\x80")],
                    _ => vec![0xc3, 0xa9],
                }
            } else {
                match t.below(10) {
                    // (any sequence that isn't one of the documented keys)
                    9 => {
                        let mut v = vec![0x1b, b'['];
                        if t.chance(0.2) {
                            v = vec![0x1b, t.int(0x20, 0x7e) as u8];
                            if v[1] == b'[' {
                                v.push(b'M');
                            }
                            return v;
                        }
                        let n = if t.chance(0.05) { t.int(1, 300) } else { t.int(0, 7) };
                        for _ in 0..n {
                            v.push(if t.chance(0.8) { *t.pick(b"0123456789;") } else { t.int(0x20, 0x3f) as u8 });
                        }
                        v.push(t.int(0x40, 0x7e) as u8);
                        v
                    }
                    0 => t
                        .pick(&[
                            b"\x1b[5~".to_vec(),
                            b"\x1b[1;5C".to_vec(),
                            b"\x1b[200~".to_vec(),
                            b"\x1b[Z".to_vec(),
                            b"\x1bb".to_vec(),
                            b"\x1bOP".to_vec(),
                            b"\x1b[?1;2c".to_vec(),
                            b"\x1b[E".to_vec(),
                            b"\x1b[33~".to_vec(),
                        ])
                        .clone(),
                    1 => one(t.int(0x80, 0xbf) as u8),
                    2 => vec![*t.pick(&[0xc3u8, 0xe2, 0xf0, 0xff, 0xc0]), *t.pick(b"az\x7f")],
                    // surrogates, overlong, out of range
                    3 => t
                        .pick(&[
                            vec![0xed, 0xa0, 0x80],
                            vec![0xed, 0xbf, 0xbf],
                            vec![0xc0, 0x80],
                            vec![0xc1, 0xbf],
                            vec![0xe0, 0x80, 0x80],
                            vec![0xf0, 0x80, 0x80, 0x80],
                            vec![0xf4, 0x90, 0x80, 0x80],
                            vec![0xf8, 0x88, 0x80, 0x80],
                            vec![0xe0, 0x9f, 0xbf],
                            vec![0xff, 0xbf, 0xbf, 0xbf],
                        ])
                        .clone(),
                    4 => t.pick(&[vec![0xc2, 0x80], vec![0xc2, 0x9b], vec![0xe2, 0x80, 0xa8], vec![0xe2, 0x80, 0xa9], vec![0xf4, 0x8f, 0xbf, 0xbf], vec![0xef, 0xbf, 0xbf], vec![0xed, 0x9f, 0xbf], vec![0xee, 0x80, 0x80]]).clone(),
                    5 => vec![0xe2, 0x82, *t.pick(b"\xc3\xe2\xf0"), 0xa9, 0x80, 0x80],
                    6 => vec![0x1b, 0x1b],
                    7 => vec![0x1b, *t.pick(&[0x7fu8, 0x01, 0x0d, 0xc3, 0x80])],
                    _ => (0..t.int(1, 6)).map(|_| t.int(0x80, 0xff) as u8).collect(),
                }
            }
        }
    }
}
#[derive(Clone, Debug)]
pub struct Chunk {
    pub gap: u64,
    pub b: Vec<u8>,
}
/// cuts key presses into what single reads may return
pub fn gen_chunks(t: &mut Tape, keys: Vec<Vec<u8>>, cut: f64, stalls: bool, burst: f64) -> Vec<Chunk> {
    let mut v: Vec<Chunk> = vec![];
    let small: [u64; 4] = [0, 200_000, 1 * MS, 4 * MS];
    let long: [u64; 4] = [100 * MS, 150 * MS, 400 * MS, 2000 * MS];
    let n = keys.len();
    for (i, key) in keys.into_iter().enumerate() {
        let esc = key.contains(&0x1b);
        let lone = key == [0x1b] || (key.last() == Some(&0x1b));
        if stalls && lone && i + 1 < n {
            continue;
        }
        let join = t.chance(burst) && !v.is_empty();
        if !join || v.is_empty() {
            let g = if t.chance(0.35) { long[t.below(4) as usize] } else { small[t.below(4) as usize] };
            v.push(Chunk { gap: g, b: vec![] });
        }
        for (j, c) in key.iter().enumerate() {
            if j > 0 && t.chance(cut) && !(esc && stalls) {
                let g = if !esc && t.chance(0.3) { long[t.below(4) as usize] } else { small[t.below(4) as usize] };
                v.push(Chunk { gap: g, b: vec![] });
            }
            v.last_mut().unwrap().b.push(*c);
        }
        if lone && stalls {
            break;
        }
    }
    v
}
/// very much input at once
pub fn gen_paste(t: &mut Tape, m: &KeyMix, cfg: &TermCfg) -> Option<Chunk> {
    t.span(|t| {
        // (the live area must fit on the screen)
        let room = cfg.w * cfg.h.saturating_sub(18).max(1);
        let mut b: Vec<u8> = vec![];
        let text = |b: &mut Vec<u8>, n: usize, t: &mut Tape| {
            let wide = !cfg.vt52 && t.chance(0.4);
            let mut w = 0;
            let mut i = 0u32;
            while w < n {
                if wide && i % 7 == 3 {
                    b.extend("é文".bytes());
                    w += 3;
                } else {
                    b.push(b"abcdefgh -xyzQ,"[i as usize % 15]);
                    w += 1;
                }
                i += 1;
            }
        };
        match t.weighted(&[3, 2, m.tab.min(3), m.hist.min(2), m.del.min(2), m.sig.min(2), m.unknown.min(1)]) {
            0 => {
                // one long line
                let n = *t.pick(&[270usize, 530, 1100, 2200]);
                let n = n.min(room);
                text(&mut b, n, t);
                match t.below(4) {
                    0 => b.push(b'\r'),
                    1 => b.push(0x15),
                    2 => b.extend([1, 6, 6, 0x0b, 0x19]),
                    _ => {}
                }
            }
            1 => {
                // many lines
                let n = *t.pick(&[20usize, 120, 260]);
                for i in 0..n {
                    b.extend(format!("l{}", i).bytes());
                    b.push(*t.pick(b"\r\n"));
                }
            }
            2 if room > 1100 => {
                b.extend(vec![9; *t.pick(&[40usize, 255, 257, 300])]);
            }
            3 => {
                let n = *t.pick(&[30usize, 130]);
                b.extend(vec![16; n]);
                b.extend(vec![14; t.int(0, n as i64 + 2) as usize]);
            }
            4 => {
                let n = room.min(300);
                text(&mut b, n, t);
                b.extend(vec![*t.pick(&[0x7fu8, 2, 0x17, 8]); *t.pick(&[100usize, 256, 310])]);
            }
            5 => b.extend(vec![*t.pick(&[3u8, 4, 7, 20, 24]); *t.pick(&[20usize, 150, 300])]),
            6 => b.extend(vec![*t.pick(&[0u8, 15, 22]); 270]),
            _ => return None,
        }
        Some(Chunk { gap: *t.pick(&[0u64, 1 * MS, 150 * MS]), b })
    })
}
fn valid(b: &[u8]) -> Option<char> {
    std::str::from_utf8(b).ok().and_then(|s| s.chars().next())
}
/// What the bytes mean: (key, index of the chunk that completes it, index of
/// the first chunk involved).
pub fn decode(chunks: &[Chunk], vt52: bool) -> Vec<(Key, usize)> {
    let mut bytes: Vec<(u8, usize)> = vec![];
    for (i, c) in chunks.iter().enumerate() {
        for b in &c.b {
            bytes.push((*b, i));
        }
    }
    let delay = 41 * MS;
    // time between consecutive chunks
    let gap = |a: usize, b: usize| -> u64 { (a + 1..=b).map(|i| chunks[i].gap).sum() };
    let mut out = vec![];
    let mut i = 0;
    let n = bytes.len();
    while i < n {
        let (b, c) = bytes[i];
        if b == 0x1b {
            let next = bytes.get(i + 1).filter(|x| gap(c, x.1) < delay);
            match next {
                Some(&(x, _)) if (0x20..0x7f).contains(&x) => {
                    if vt52 {
                        i += if x == b'/' { 3 } else { 2 };
                    } else if x == b'[' {
                        let mut e = i + 2;
                        while e < n && (0x20..0x40).contains(&bytes[e].0) {
                            e += 1;
                        }
                        if e >= n {
                            // never completed
                            return out;
                        }
                        let seq: Vec<u8> = bytes[i + 2..=e].iter().map(|x| x.0).collect();
                        let k = match &seq[..] {
                            b"A" => Some(Key::Up),
                            b"B" => Some(Key::Down),
                            b"C" => Some(Key::Right),
                            b"D" => Some(Key::Left),
                            b"3~" => Some(Key::Del),
                            b"H" => Some(Key::Home),
                            b"F" => Some(Key::End),
                            _ => None,
                        };
                        if let Some(k) = k {
                            out.push((k, bytes[e].1));
                        }
                        i = e + 1;
                    } else {
                        i += 2;
                    }
                }
                _ => {
                    out.push((Key::Esc, c));
                    i += 1;
                }
            }
        } else if b >= 0x80 {
            if vt52 {
                i += 1;
                continue;
            }
            let need = if b >= 0xf0 {
                4
            } else if b >= 0xe0 {
                3
            } else if b >= 0xc0 {
                2
            } else {
                out.push((Key::Ch('\u{fffd}'), c));
                i += 1;
                continue;
            };
            let mut bad = None;
            for j in 1..need {
                if i + j >= n {
                    return out;
                }
                if !(0x80..0xc0).contains(&bytes[i + j].0) {
                    bad = Some(j);
                    break;
                }
            }
            if let Some(j) = bad {
                out.push((Key::Ch('\u{fffd}'), bytes[i + j].1));
                i += j;
                continue;
            }
            let s: Vec<u8> = bytes[i..i + need].iter().map(|x| x.0).collect();
            let ch = valid(&s).unwrap_or('\u{fffd}');
            out.push((if is_ctl(ch) { Key::Nop } else { Key::Ch(ch) }, bytes[i + need - 1].1));
            i += need;
        } else {
            let k = if b < 0x20 || b == 0x7f { Key::Ctl(b) } else { Key::Ch(b as char) };
            out.push((k, c));
            i += 1;
        }
    }
    out
}
