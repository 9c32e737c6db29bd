ID="P05-split-csi-dropped"; PROP="P05"
NEEDS="an escape sequence that the terminal delivers in two reads, cut after its introducer"
BREAKS="the part of an escape sequence read first is thrown away when the rest hasn't arrived yet, so that the rest is taken as typed text"
EDITS=[("src/term/cross.rs","                            None => break, // more input needed","                            // not a sequence we know\n                            None => start = buf.len(),")]
DEMO=r'''
exe = build("""
fn main() {
    let mut io = liso::InputOutput::new();
    io.prompt("> ", true, false);
    loop {
        match io.read_blocking() {
            liso::Response::Input(x) => { io.println(format!("got[{}]", x)); }
            liso::Response::Dead => break,
            _ => (),
        }
    }
}
""")
r = Run(exe)
r.wait_for(lambda s: s.text() == [">"])
r.quiet()
r.keys("bc\x1b[")
time.sleep(0.01)
r.quiet(0.03, 0.03)
r.keys("H")       # home
r.quiet(0.2)
r.keys("a\r")
ok = r.wait_for(lambda s: any("got[abc]" in t for t in s.text()), 5)
done(ok, repr(r.screen.text()) + r.errors())
'''
