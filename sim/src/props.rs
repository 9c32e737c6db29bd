//! Which scenarios decide which property, and with what mixture of requests,
//! keys and faults.
use crate::gen::*;
use crate::model::*;
use crate::tty::*;

pub enum Scn {
    Tty(Mix),
    Shutdown(Mix),
    Failure(Mix),
    Crash(Mix),
    Own,
    Pipe(Mix),
    PipeFail(Mix),
    ErrCap,
    /// (true: as part of an instance)
    Hist(bool),
}
pub struct Prop {
    pub id: &'static str,
    pub scns: Vec<(u32, Scn)>,
    pub quick: u64,
    pub thorough: u64,
}

fn base() -> Mix {
    Mix {
        a: NONE,
        ops: OpMix { out: 30, status: 8, prompt: 8, notice: 3, bell: 2, custom: 3, suspend: 1, comp: 1, sleep: 10, read: 6, swap: 1, peek: 0, err: 0, burst: 0 },
        keys: KeyMix { ascii: 40, exotic: 4, mov: 8, del: 5, kill: 3, hist: 5, sig: 3, ret: 4, tab: 2, esc: 1, clear: 2, stop: 1, unknown: 1, junk: 1 },
        line: LineMix { style: 0.2, wide: 0.25, ctl: 0.15, nl: 0.03, long: 0.35 },
        threads: 2,
        phases: 4,
        max_ops: 7,
        op_p: 0.75,
        max_keys: 10,
        key_p: 0.7,
        cut: 0.2,
        burst: 0.5,
        vt52: 0.08,
        narrow: 0.3,
        tty_stall: 0.1,
        knobs: (0.15, 0.4, 0.25),
        ret: 0.3,
        timing: false,
        block: false,
        probes: false,
        inner: 0.0,
        shared: 0.0,
    }
}
fn mixed(f: impl FnOnce(&mut Mix)) -> Mix {
    let mut m = base();
    f(&mut m);
    m
}
fn mix(f: impl FnOnce(&mut Mix)) -> Scn {
    Scn::Tty(mixed(f))
}

/// pipe mode
fn pipe(f: impl FnOnce(&mut Mix)) -> Mix {
    mixed(|m| {
        m.a = ALL;
        m.ops = OpMix { out: 30, status: 4, prompt: 4, notice: 2, bell: 2, custom: 8, suspend: 3, comp: 0, sleep: 12, read: 12, swap: 0, peek: 0, err: 0, burst: 0 };
        m.phases = 3;
        m.max_ops = 10;
        m.max_keys = 0;
        m.key_p = 0.0;
        m.tty_stall = 0.2;
        m.line.nl = 0.05;
        m.knobs = (0.08, 0.5, 0.4);
        f(m)
    })
}

pub fn prop(id: &str) -> Option<Prop> {
    let p = |id, quick, thorough, scns| Some(Prop { id, quick, thorough, scns });
    match id {
        "P01" => p(
            "P01",
            60000,
            1500000,
            vec![
                (
                    4,
                    mix(|m| {
                        m.a = Aspects { out: true, ..NONE };
                        m.threads = 3;
                        m.ops.suspend = 2;
                        m.line.long = 0.5;
                        m.line.ctl = 0.3;
                    }),
                ),
                (
                    1,
                    mix(|m| {
                        m.a = Aspects { out: true, ..NONE };
                        m.threads = 3;
                        m.key_p = 0.0;
                        m.line.wide = 0.6;
                        m.line.nl = 0.1;
                        m.narrow = 0.7;
                    }),
                ),
            ],
        ),
        "P02" => p(
            "P02",
            60000,
            1500000,
            vec![
                (
                    3,
                    mix(|m| {
                        m.a = Aspects { live: true, live_style: true, cursor: true, ..NONE };
                        m.ops.out = 10;
                        m.ops.status = 16;
                        m.ops.prompt = 16;
                        m.ops.notice = 4;
                        m.phases = 6;
                        m.max_keys = 8;
                        m.keys.exotic = 10;
                        m.line.long = 0.5;
                        m.line.nl = 0.06;
                        m.narrow = 0.5;
                        m.ops.sleep = 14;
                    }),
                ),
                (
                    2,
                    mix(|m| {
                        // small steps, so that each redraw is compared
                        m.a = Aspects { live: true, live_style: true, cursor: true, ..NONE };
                        m.ops.out = 4;
                        m.ops.status = 12;
                        m.ops.prompt = 14;
                        m.phases = 12;
                        m.max_ops = 2;
                        m.max_keys = 3;
                        m.threads = 0;
                        m.keys.exotic = 14;
                        m.keys.ascii = 60;
                        m.line.wide = 0.5;
                        m.line.long = 0.6;
                        m.line.nl = 0.06;
                        m.narrow = 0.8;
                        m.tty_stall = 0.0;
                    }),
                ),
            ],
        ),
        "P03" => p(
            "P03",
            60000,
            1500000,
            vec![(
                1,
                mix(|m| {
                    m.a = Aspects { out_style: true, live_style: true, ..NONE };
                    m.line.style = 0.9;
                    m.line.nl = 0.06;
                    m.ops.status = 12;
                    m.ops.prompt = 12;
                    m.ops.suspend = 2;
                    m.phases = 8;
                    m.max_ops = 4;
                    m.max_keys = 5;
                    m.threads = 1;
                }),
            )],
        ),
        "P04" => p(
            "P04",
            60000,
            1500000,
            vec![(
                1,
                mix(|m| {
                    m.a = Aspects { resp: true, live: true, cursor: true, ..NONE };
                    m.ops = OpMix { out: 10, sleep: 10, status: 3, read: 10, ..OpMix::default() };
                    m.op_p = 0.4;
                    m.max_keys = 40;
                    m.key_p = 0.95;
                    m.phases = 3;
                    m.threads = 1;
                    m.keys = KeyMix { ascii: 40, exotic: 20, mov: 24, del: 18, kill: 14, hist: 4, sig: 4, ret: 5, tab: 1, esc: 1, clear: 1, stop: 0, unknown: 2, junk: 0 };
                    m.ret = 0.9;
                    m.burst = 0.7;
                    m.cut = 0.1;
                }),
            )],
        ),
        "P05" => p(
            "P05",
            60000,
            1500000,
            vec![(
                1,
                mix(|m| {
                    m.a = Aspects { resp: true, ..NONE };
                    m.ops = OpMix { out: 4, sleep: 10, read: 10, ..OpMix::default() };
                    m.op_p = 0.3;
                    m.max_keys = 25;
                    m.key_p = 0.93;
                    m.phases = 3;
                    m.threads = 0;
                    m.keys = KeyMix { ascii: 20, exotic: 25, mov: 16, del: 5, kill: 0, hist: 4, sig: 3, ret: 6, tab: 0, esc: 10, clear: 0, stop: 0, unknown: 3, junk: 40 };
                    m.ret = 0.9;
                    m.cut = 0.5;
                    m.knobs = (0.1, 0.4, 0.7);
                }),
            )],
        ),
        "P06" => p(
            "P06",
            60000,
            1500000,
            vec![(
                5,
                mix(|m| {
                    m.a = Aspects { resp: true, ..NONE };
                    m.ops = OpMix { out: 4, custom: 30, sleep: 10, read: 35, ..OpMix::default() };
                    m.keys = KeyMix { ascii: 20, sig: 25, ret: 15, esc: 3, unknown: 4, ..KeyMix::default() };
                    m.threads = 3;
                    m.max_ops = 10;
                    m.op_p = 0.85;
                    m.timing = true;
                    m.knobs = (0.15, 0.7, 0.25);
                }),
            ), (1, Scn::Pipe(pipe(|m| {
                m.ops.custom = 30;
                m.ops.read = 30;
                m.ops.out = 6;
                m.max_ops = 12;
            })))],
        ),
        "P07" => p(
            "P07",
            60000,
            1500000,
            vec![(
                1,
                mix(|m| {
                    m.a = Aspects { resp: true, ..NONE };
                    m.ops = OpMix { out: 3, custom: 20, sleep: 15, read: 45, ..OpMix::default() };
                    m.keys = KeyMix { ascii: 10, sig: 15, ret: 15, ..KeyMix::default() };
                    m.threads = 2;
                    m.max_ops = 10;
                    m.op_p = 0.85;
                    m.timing = true;
                    m.tty_stall = 0.0;
                    m.knobs = (0.0, 0.5, 0.25);
                }),
            )],
        ),
        "P08" => p(
            "P08",
            60000,
            1500000,
            vec![(
                1,
                mix(|m| {
                    m.a = Aspects { live: true, cursor: true, live_style: true, resp: true, ..NONE };
                    m.ops = OpMix { out: 6, status: 4, prompt: 5, notice: 30, sleep: 18, read: 4, ..OpMix::default() };
                    m.keys = KeyMix { ascii: 14, exotic: 2, mov: 12, del: 8, kill: 8, hist: 10, sig: 16, ret: 8, tab: 5, esc: 8, clear: 3, stop: 2, unknown: 6, junk: 2 };
                    m.max_keys = 3;
                    m.key_p = 0.4;
                    m.phases = 8;
                    m.max_ops = 5;
                    m.threads = 1;
                    m.tty_stall = 0.04;
                    m.knobs = (0.1, 0.4, 0.2);
                }),
            )],
        ),
        "P09" => p(
            "P09",
            60000,
            1500000,
            vec![
                (3, Scn::Shutdown(mixed(|m| {
                    m.a = Aspects { out: true, live: true, cursor: true, live_style: true, ..NONE };
                    m.ops = OpMix { out: 20, status: 10, prompt: 10, notice: 5, bell: 2, custom: 6, suspend: 3, comp: 1, sleep: 10, read: 5, swap: 1, peek: 1, err: 0, burst: 0 };
                    m.phases = 3;
                    m.max_ops = 6;
                    m.max_keys = 8;
                    m.tty_stall = 0.05;
                    m.knobs = (0.05, 0.6, 0.25);
                    m.vt52 = 0.15;
                }))),
                (1, Scn::Pipe(pipe(|m| m.max_ops = 5))),
            ],
        ),
        "P10" => p(
            "P10",
            60000,
            1500000,
            vec![
                (3, Scn::Failure(mixed(|m| {
                    m.a = Aspects { resp: true, ..NONE };
                    m.ops = OpMix { out: 16, status: 6, prompt: 6, notice: 4, bell: 3, custom: 14, suspend: 3, comp: 1, sleep: 12, read: 8, swap: 1, peek: 1, err: 0, burst: 0 };
                    m.keys = KeyMix { ascii: 20, exotic: 3, mov: 4, del: 4, kill: 3, hist: 3, sig: 10, ret: 12, tab: 1, esc: 2, clear: 1, stop: 1, unknown: 1, junk: 1 };
                    m.phases = 2;
                    m.max_ops = 7;
                    m.tty_stall = 0.05;
                    m.knobs = (0.05, 0.6, 0.25);
                    m.vt52 = 0.15;
                }))),
                (1, Scn::PipeFail(pipe(|m| m.max_ops = 6))),
            ],
        ),
        "P11" => p("P11", 60000, 1500000, vec![(1, Scn::Pipe(pipe(|_| ())))]),
        "P12" => p(
            "P12",
            60000,
            1500000,
            vec![(
                1,
                mix(|m| {
                    m.a = Aspects { resp: true, hist: true, live: true, cursor: true, ..NONE };
                    m.ops = OpMix { out: 3, prompt: 3, sleep: 10, read: 15, swap: 14, peek: 10, ..OpMix::default() };
                    m.keys = KeyMix { ascii: 14, exotic: 3, mov: 2, del: 3, kill: 2, hist: 45, sig: 4, ret: 16, ..KeyMix::default() };
                    m.max_keys = 20;
                    m.key_p = 0.9;
                    m.phases = 4;
                    m.threads = 0;
                    m.max_ops = 8;
                    m.shared = 0.3;
                    m.ret = 0.6;
                    m.burst = 0.4;
                    m.knobs = (0.1, 0.7, 0.2);
                }),
            )],
        ),
        "P14" => p(
            "P14",
            60000,
            1500000,
            vec![(
                1,
                mix(|m| {
                    m.a = Aspects { resp: true, live: true, cursor: true, live_style: true, ..NONE };
                    m.ops = OpMix { out: 4, status: 3, prompt: 40, notice: 3, sleep: 14, read: 4, ..OpMix::default() };
                    m.keys = KeyMix { ascii: 40, exotic: 5, mov: 12, del: 8, kill: 6, hist: 6, sig: 5, ret: 8, esc: 2, ..KeyMix::default() };
                    m.max_keys = 8;
                    m.phases = 8;
                    m.max_ops = 4;
                    m.threads = 1;
                    m.ret = 0.3;
                }),
            )],
        ),
        "P15" => p(
            "P15",
            60000,
            1500000,
            vec![(
                1,
                mix(|m| {
                    m.a = Aspects { resp: true, comp: true, out: true, live: true, cursor: true, ..NONE };
                    m.ops = OpMix { out: 5, comp: 30, prompt: 3, sleep: 12, read: 4, ..OpMix::default() };
                    m.keys = KeyMix { ascii: 25, exotic: 8, mov: 14, del: 4, kill: 3, hist: 2, sig: 4, ret: 4, tab: 45, ..KeyMix::default() };
                    m.max_keys = 14;
                    m.key_p = 0.85;
                    m.phases = 4;
                    m.max_ops = 4;
                    m.threads = 1;
                    m.ret = 0.5;
                }),
            )],
        ),
        "P16" => p(
            "P16",
            60000,
            1500000,
            vec![(
                6,
                mix(|m| {
                    m.a = Aspects { out: true, live: true, cursor: true, live_style: true, resp: true, ..NONE };
                    m.ops = OpMix { out: 14, suspend: 20, status: 6, prompt: 6, sleep: 10, custom: 2, read: 3, ..OpMix::default() };
                    m.keys = KeyMix { ascii: 25, exotic: 2, mov: 4, ret: 4, stop: 14, ..KeyMix::default() };
                    m.max_keys = 5;
                    m.phases = 6;
                    m.max_ops = 4;
                    m.threads = 2;
                    m.probes = true;
                    m.inner = 0.2;
                    m.line.style = 0.4;
                    m.vt52 = 0.2;
                }),
            ), (1, Scn::Pipe(pipe(|m| {
                m.ops.suspend = 16;
                m.max_ops = 6;
            })))],
        ),
        "P13" => p("P13", 60000, 1500000, vec![(4, Scn::Hist(false)), (1, Scn::Hist(true))]),
        "P17" => p("P17", 60000, 1500000, vec![(1, Scn::Own)]),
        "P22" => p(
            "P22",
            60000,
            1500000,
            vec![(
                1,
                Scn::Crash(mixed(|m| {
                    m.a = NONE;
                    m.ops = OpMix { out: 20, status: 14, prompt: 14, notice: 6, bell: 2, suspend: 3, sleep: 10, ..OpMix::default() };
                    m.line.style = 0.4;
                    m.phases = 3;
                    m.max_ops = 6;
                    m.tty_stall = 0.1;
                    m.knobs = (0.08, 0.6, 0.25);
                    m.vt52 = 0.2;
                })),
            )],
        ),
        // (with the `capture` build)
        "P18" => p(
            "P18",
            60000,
            1500000,
            vec![
                (
                    2,
                    mix(|m| {
                        m.a = Aspects { out: true, live: true, cursor: true, ..NONE };
                        m.ops = OpMix { out: 8, status: 6, prompt: 6, notice: 1, suspend: 1, sleep: 12, read: 3, err: 30, ..OpMix::default() };
                        m.threads = 2;
                        m.max_keys = 4;
                        m.phases = 5;
                        m.max_ops = 6;
                    }),
                ),
                (
                    2,
                    mix(|m| {
                        // one writer, small steps
                        m.a = Aspects { out: true, live: true, cursor: true, ..NONE };
                        m.ops = OpMix { status: 2, prompt: 2, sleep: 6, err: 40, ..OpMix::default() };
                        m.threads = 0;
                        m.key_p = 0.0;
                        m.phases = 8;
                        m.max_ops = 4;
                        m.tty_stall = 0.05;
                    }),
                ),
                (3, Scn::ErrCap),
            ],
        ),
        "P19" => p(
            "P19",
            60000,
            1500000,
            vec![(
                1,
                mix(|m| {
                    m.a = Aspects { out: true, live: true, cursor: true, resp: true, bell: true, out_style: true, live_style: true, ..NONE };
                    m.line.style = 0.35;
                    m.ops = OpMix { out: 10, status: 8, prompt: 10, notice: 6, bell: 20, custom: 4, suspend: 4, sleep: 6, read: 3, comp: 2, ..OpMix::default() };
                    m.keys = KeyMix { ascii: 25, exotic: 2, mov: 6, del: 4, kill: 4, hist: 20, sig: 8, ret: 5, tab: 6, esc: 3, clear: 2, stop: 1, unknown: 3, junk: 0 };
                    m.max_keys = 2;
                    m.key_p = 0.5;
                    m.max_ops = 2;
                    m.phases = 12;
                    m.threads = 0;
                    m.tty_stall = 0.0;
                    m.ret = 0.1;
                    m.vt52 = 0.1;
                }),
            )],
        ),
        "P20" => p(
            "P20",
            60000,
            1500000,
            vec![(
                1,
                mix(|m| {
                    m.a = Aspects { out: true, live: true, cursor: true, resp: true, bell: true, out_style: true, live_style: true, ..NONE };
                    m.line.style = 0.35;
                    m.ops = OpMix { out: 30, status: 8, prompt: 10, notice: 10, bell: 3, custom: 6, sleep: 8, read: 6, comp: 1, ..OpMix::default() };
                    m.ops.comp = 0;
                    m.tty_stall = 0.85;
                    m.ops.burst = 1;
                    m.ops.suspend = 1;
                    m.inner = 0.5;
                    m.max_ops = 14;
                    m.op_p = 0.9;
                    m.phases = 3;
                    m.threads = 2;
                    m.block = true;
                    m.timing = true;
                    m.knobs = (0.0, 0.4, 0.2);
                    m.line.wide = 0.1;
                }),
            )],
        ),
        "P21" => p(
            "P21",
            60000,
            1500000,
            vec![
                (
                    2,
                    mix(|m| {
                        m.a = Aspects { comp: false, hist: false, ..ALL };
                        m.vt52 = 1.0;
                        m.line.style = 0.7;
                        m.ops.suspend = 3;
                        m.ops.notice = 4;
                        m.keys.clear = 1;
                        m.keys.junk = 4;
                        m.keys.esc = 3;
                        m.probes = true;
                        m.phases = 6;
                        m.max_ops = 4;
                        m.max_keys = 6;
                    }),
                ),
                (
                    1,
                    mix(|m| {
                        m.a = Aspects { comp: false, hist: false, ..ALL };
                        m.vt52 = 1.0;
                        m.line.style = 0.6;
                        m.line.wide = 0.5;
                        m.line.long = 0.6;
                        m.ops.status = 14;
                        m.ops.prompt = 16;
                        m.phases = 10;
                        m.max_ops = 2;
                        m.max_keys = 4;
                        m.threads = 0;
                        m.probes = true;
                    }),
                ),
            ],
        ),
        _ => None,
    }
}
