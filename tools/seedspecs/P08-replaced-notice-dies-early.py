ID="P08-replaced-notice-dies-early"; PROP="P08"
NEEDS="a notice replaced by another with a later deadline before its own time is up"
BREAKS="the heartbeat of the first notice removes whatever notice is shown, so the second one vanishes too early"
EDITS=[("src/worker.rs","""                if let Some((_, deadline)) = self.notice {
                    if Instant::now() >= deadline {
                        self.rollout_needed = true;
                        self.notice = None;
                    }
                }
""","""                // its time is up
                self.dismiss_notice()?;
""")]
DEMO=r'''
exe = build("""
use std::time::Duration;
fn main() {
    let io = liso::InputOutput::new();
    io.notice("FIRST", Duration::from_millis(1000));
    std::thread::sleep(Duration::from_millis(500));
    io.notice("SECOND", Duration::from_millis(4000));
    std::thread::sleep(Duration::from_millis(5500));
    drop(io);
}
""")
r = Run(exe)
ok = r.wait_for(lambda s: s.text() == ["SECOND"], 10)
if not ok: done(False, "no second notice")
# it has 4 s to live
end = time.time() + 2.5
while time.time() < end:
    r.pump(0.1)
    if r.screen.text() != ["SECOND"]: done(False, "vanished early")
ok = r.wait_for(lambda s: s.text() == [], 5)
done(ok, "still there")
'''
