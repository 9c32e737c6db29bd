ID="P19-status-compared-by-text"; PROP="P19"
NEEDS="replacing a status line by one with the same text and different style or color"
BREAKS="a new status line whose text is the same as that of the old one is taken for no change, even if its style or colors differ"
EDITS=[("src/worker.rs","""                if self.status != line {
                    self.rollout_needed = true;
""","""                let text = |x: &Option<Line>| {
                    x.as_ref().map(|x| x.as_str().to_owned())
                };
                if text(&self.status) != text(&line) {
                    self.rollout_needed = true;
""")]
DEMO=r'''
exe = build("""
use liso::liso;
fn main() {
    let mut io = liso::InputOutput::new();
    io.status(Some(liso!(fg = green, "working")));
    io.prompt("> ", true, false);
    loop {
        match io.read_blocking() {
            liso::Response::Info => io.status(Some(liso!(fg = red, bold, "working"))),
            liso::Response::Dead => break,
            _ => (),
        }
    }
}
""")
r = Run(exe)
if not r.wait_for(lambda s: s.text() == ["working", ">"]): done(False, "no prompt")
r.quiet()
a = r.screen.rows[0][0]
r.keys("\x14"); r.quiet(0.4)
b = r.screen.rows[0][0]
done("s1" in b[1] and a[1] != b[1], repr((a, b)))
'''
