ID="P16-stopped-by-rollin"; PROP="P16"
NEEDS="Control-Z while the live area is shown, then continuing the process and nothing else"
BREAKS="after the process was stopped by Control-Z and continued, Liso believes that the live area is still on the screen above, and does not draw it again below what the shell printed"
EDITS=[("src/worker.rs","""        self.rollout()?;
        self.remembered_output = None;
        let mut term = self.term.borrow_mut();
""","""        self.rollout()?;
        let mut term = self.term.borrow_mut();
""")]
DEMO=r'''
exe = build("""
fn main() {
    let mut io = liso::InputOutput::new();
    io.prompt("> ", true, false);
    loop {
        match io.read_blocking() {
            liso::Response::Input(x) => { io.println(format!("got[{}]", x)); if x == "q" { break; } }
            liso::Response::Dead => break,
            _ => (),
        }
    }
}
""")
r = Run(exe)
if not r.wait_for(lambda s: s.text() == [">"]): done(False, "no prompt")
r.quiet()
r.keys("abc"); r.quiet(0.2)
r.keys("\x1a")
end = time.time() + 5
st = None
while time.time() < end:
    r.pump(0.05)
    st = open("/proc/%d/stat" % r.p.pid).read().rsplit(")", 1)[1].split()[0]
    if st == "T": break
if st != "T": done(False, "not stopped: %s" % st)
r.quiet(0.2)
r.screen.feed(b"shell\r\n")
os.kill(r.p.pid, signal.SIGCONT)
r.quiet(0.4)
t = r.screen.text()
if t[-1] != "> abc" or t[-2] != "shell": done(False, repr(t))
r.keys("\r"); r.quiet(0.2)
t = r.screen.text()
done(t[-3:] == ["shell", "got[abc]", ">"], repr(t) + r.errors())
'''
