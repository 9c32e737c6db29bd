ID="P21-white-on-black-four-colors"; PROP="P21"
NEEDS="an Atari ST terminal with four colors (80 by 25) and ATARI_WHITE_ON_BLACK set"
BREAKS="text without a background color of its own gets the wrong background, that of the text color, so it can't be read"
EDITS=[("src/term/vt52.rs","""                    fg.map(Color::to_atari4).unwrap_or(0),
                    bg.map(Color::to_atari4).unwrap_or(15),
""","""                    fg.map(Color::to_atari4).unwrap_or(0),
                    bg.map(Color::to_atari4).unwrap_or(0),
""")]
DEMO=r'''
exe = build("""
fn main() {
    let io = liso::InputOutput::new();
    io.println(liso::liso!("plain"));
    std::thread::sleep(std::time::Duration::from_millis(500));
    drop(io);
}
""")
r = Run(exe, w=80, h=25, term="st52", env={"ATARI_WHITE_ON_BLACK": "1"})
r.exit()
i = r.raw.find(b"plain")
bg = r.raw[:i].rfind(b"\x1bc")
done(i > 0 and bg >= 0 and r.raw[bg+2:bg+3] == b"\x2f", repr(r.raw))
'''
