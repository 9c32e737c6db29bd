ID="P14-cursor-keys-always-allowed"; PROP="P14"
NEEDS="a key that is sent as an escape sequence (such as Delete or an arrow), pressed while the prompt doesn't allow input"
BREAKS="only typed text is ignored while input isn't allowed; cursor keys, Delete and Escape still have their effect"
EDITS=[("src/worker.rs","""        if !self.input_allowed {
            return Ok(());
        }
        match event {
""","""        match event {
""")]
DEMO=r'''
exe = build("""
use std::time::Duration;
fn main() {
    let mut io = liso::InputOutput::new();
    io.println("ready");
    loop {
        match io.read_timeout(Duration::from_secs(4)) {
            Some(liso::Response::Info) => { io.prompt(liso::liso!("wait"), false, false); io.println("disallowed"); }
            Some(liso::Response::Escape) | None => { io.prompt(liso::liso!("go"), true, false); io.println("allowed again"); }
            Some(liso::Response::Input(x)) => { io.println(format!("got {}", x)); break; }
            _ => break,
        }
    }
    drop(io);
}
""")
r = Run(exe)
r.wait_for(lambda s: "ready" in s.text())
r.keys("abc\x01\x14")
r.wait_for(lambda s: "disallowed" in s.text())
r.keys("\x1b[3~")
r.wait_for(lambda s: "allowed again" in s.text())
r.keys("\r")
r.exit()
t = r.screen.text()
done("got abc" in t, repr(t) + r.errors())
'''
