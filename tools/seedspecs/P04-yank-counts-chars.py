ID="P04-yank-counts-chars"; PROP="P04"
NEEDS="killing text that holds a multi-byte character, then yanking it"
BREAKS="Control-Y advances the cursor by the number of characters instead of bytes, so the cursor ends up inside the yanked text"
EDITS=[("src/worker.rs","self.input_cursor += self.clipboard.len();","self.input_cursor += self.clipboard.chars().count();")]
DEMO=r'''
exe = build("""
fn main() {
    let mut io = liso::InputOutput::new();
    io.prompt("> ", true, false);
    loop {
        match io.read_blocking() {
            liso::Response::Input(x) => { io.println(format!("got[{}]", x)); if x == "q" { break; } }
            liso::Response::Dead => break,
            _ => (),
        }
    }
}
""")
r = Run(exe)
if not r.wait_for(lambda s: "> " in "".join(s.text()) or s.text() == [">"]): done(False, "no prompt")
r.quiet()
r.keys("na\u00efve \u00fcber")
r.quiet(0.2)
r.keys("\x15"); r.quiet(0.2)      # kill to start
r.keys("\x19"); r.quiet(0.2)      # yank
r.keys("!\r")
ok = r.wait_for(lambda s: any("got[na\u00efve \u00fcber!]" in t for t in s.text()), 5)
done(ok, repr(r.screen.text()) + r.errors())
'''
