ID="P03-style-removal-keeps-attrs"; PROP="P03"
NEEDS="a line in which one style is taken away while another stays (bold+underline followed by bold)"
BREAKS="taking a style away no longer resets the terminal's attributes when other styles remain, so the removed one bleeds into the following text"
EDITS=[("src/term/cross.rs","        if self.cur_style != style\n","        if (self.cur_style != style && style.is_empty())\n")]
DEMO=r'''
exe = build("""
use liso::liso;
fn main() {
    let io = liso::InputOutput::new();
    io.println(liso!(bold +underline, "abc", -underline, "def"));
    io.println("end");
    std::thread::sleep(std::time::Duration::from_millis(300));
    drop(io);
}
""")
r = Run(exe)
r.exit()
row = [x for x in r.screen.rows if "".join(c[0] for c in x).startswith("abcdef")][0]
a = [c[1] for c in row[:6]]
done(a == [("s1", "s4")] * 3 + [("s1",)] * 3, repr(a))
'''
