ID="P19-status-under-notice"; PROP="P19"
NEEDS="a change of the status line while a notice is shown"
BREAKS="a new status line isn't displayed as long as a notice is shown, unless something else changes"
EDITS=[("src/worker.rs","""                if self.status != line {
                    self.rollout_needed = true;
                    self.status = line;
                }
""","""                if self.status != line {
                    // everything is drawn again when the notice goes away
                    if self.notice.is_none() {
                        self.rollout_needed = true;
                    }
                    self.status = line;
                }
""")]
DEMO=r'''
exe = build("""
use std::time::Duration;
fn main() {
    let io = liso::InputOutput::new();
    io.status(Some(liso::liso!("one")));
    io.notice(liso::liso!("notice"), Duration::from_secs(60));
    std::thread::sleep(Duration::from_millis(300));
    io.status(Some(liso::liso!("two")));
    std::thread::sleep(Duration::from_millis(1500));
    std::process::exit(0);
}
""")
r = Run(exe)
ok = r.wait_for(lambda s: s.text() == ["two", "notice"], 4)
done(ok, repr(r.screen.text()))
'''
