ID="P08-shorter-notice-not-scheduled"; PROP="P08"
NEEDS="a notice that is replaced by another one whose time is up earlier"
BREAKS="a new notice only schedules its removal if there is none shown yet, so one that replaces a longer-lived one stays until the time of the first is up (or for good)"
EDITS=[("src/worker.rs","""        self.notice = Some((line, deadline));
        ded_tx.send(deadline)?;
""","""        let pending = self.notice.as_ref().map(|(_, x)| *x);
        self.notice = Some((line, deadline));
        // no need to wake up twice
        if pending.is_none_or(|x| x < deadline) {
            ded_tx.send(deadline)?;
        }
""")]
DEMO=r'''
exe = build("""
use std::time::Duration;
fn main() {
    let io = liso::InputOutput::new();
    io.prompt(liso::liso!("prompt> "), true, false);
    io.notice(liso::liso!("first"), Duration::from_secs(30));
    std::thread::sleep(Duration::from_millis(200));
    io.notice(liso::liso!("second"), Duration::from_millis(300));
    std::thread::sleep(Duration::from_secs(4));
    drop(io);
}
""")
r = Run(exe)
ok = r.wait_for(lambda s: "second" in s.text()) and r.wait_for(lambda s: "prompt>" in s.text(), 3)
r.exit()
done(ok, repr(r.screen.text()) + r.errors())
'''
