ID="P16-no-autowrap-for-program"; PROP="P16"
NEEDS="code run by suspend_and_run (or a shell after Control-Z) that writes a line wider than the terminal"
BREAKS="automatic wrapping isn't switched on again when the terminal is handed back, so the end of long lines is overwritten"
EDITS=[("src/term/cross.rs","""        let queue_result = queue!(
            self.stdout,
            cursor::Show,
            terminal::EnableLineWrap,
""","""        let queue_result = queue!(
            self.stdout,
            cursor::Show,
""")]
DEMO=r'''
exe = build("""
use std::time::Duration;
fn main() {
    let io = liso::InputOutput::new();
    io.println("one");
    std::thread::sleep(Duration::from_millis(300));
    io.suspend_and_run(|| { println!("suspended"); std::thread::sleep(Duration::from_millis(1500)); });
    drop(io);
}
""")
r = Run(exe)
r.wait_for(lambda s: "suspended" in s.text())
during = r.screen.wrap
r.exit()
done("suspended" in r.screen.text() and during and r.screen.wrap, repr((r.screen.text(), during, r.screen.wrap)))
'''
