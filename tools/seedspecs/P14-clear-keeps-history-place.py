ID="P14-clear-keeps-history-place"; PROP="P14"
NEEDS="a prompt with clear_input while a recalled history line is shown, followed by the key for the next history line"
BREAKS="clearing the input by a prompt no longer leaves the history: the next Down key brings the text that was typed before back into the cleared input"
EDITS=[("src/worker.rs","""                    if clear_input {
                        self.input.clear();
                        self.input_cursor = 0;
                        #[cfg(feature = "history")]
                        {
                            self.cur_history_index = None;
                            self.orphaned_new_input = None;
                            self.history_original_line = None;
                        }
                    }
""","""                    if clear_input {
                        self.input.clear();
                        self.input_cursor = 0;
                    }
""")]
DEMO=r'''
exe = build("""
fn main() {
    let mut io = liso::InputOutput::new();
    io.prompt("> ", true, false);
    loop {
        match io.read_blocking() {
            liso::Response::Input(x) => { io.println(format!("got[{}]", x)); if x == "q" { break; } }
            liso::Response::Info => { io.prompt("> ", true, true); io.println("cleared"); }
            liso::Response::Dead => break,
            _ => (),
        }
    }
}
""")
r = Run(exe)
if not r.wait_for(lambda s: s.text() == [">"]): done(False, "no prompt")
r.quiet()
r.keys("one\r"); r.quiet(0.2)
r.keys("mine"); r.quiet(0.2)
r.keys("\x10"); r.quiet(0.2)
r.keys("\x14"); r.wait_for(lambda s: "cleared" in s.text()); r.quiet(0.2)
r.keys("\x0e"); r.quiet(0.2)
r.keys("\r"); r.quiet(0.3)
t = r.screen.text()
done("got[]" in t and "got[mine]" not in t, repr(t) + r.errors())
'''
