ID="P03-background-outlives-text"; PROP="P03"
NEEDS="a line in which text with a background color is followed by text of the same style and with a foreground color but no background color"
BREAKS="going back to no background color no longer resets the terminal's attributes, so the background color bleeds into the following text"
EDITS=[("src/term/cross.rs","            || (self.cur_bg != bg && bg.is_none())\n","            || (self.cur_bg != bg && bg.is_none() && fg.is_none())\n")]
DEMO=r'''
exe = build("""
use liso::liso;
fn main() {
    let io = liso::InputOutput::new();
    io.println(liso!(fg = green, bg = red, "abc", bg = none, "def"));
    io.println("end");
    std::thread::sleep(std::time::Duration::from_millis(300));
    drop(io);
}
""")
r = Run(exe)
r.exit()
row = [x for x in r.screen.rows if "".join(c[0] for c in x).startswith("abcdef")][0]
a = [any(t.startswith("bg") for t in c[1]) for c in row[:6]]
done(a == [True] * 3 + [False] * 3, repr([c[1] for c in row[:6]]))
'''
