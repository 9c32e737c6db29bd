ID="P04-delete-leaves-marks"; PROP="P04"
NEEDS="the Delete key pressed on a character that is followed by combining marks"
BREAKS="Delete removes only the base character, its combining marks stay and attach to the character before"
EDITS=[("src/worker.rs","""            let start_index = self.input_cursor;
            self.input_cursor += 1;
            while !self.input.is_char_boundary(self.input_cursor)
                || self.cursor_on_invisible()
            {
                self.input_cursor += 1;
            }
            self.input.replace_range(start_index..self.input_cursor, "");
            self.input_cursor = start_index;
""","""            self.input.remove(self.input_cursor);
""")]
DEMO=r'''
exe = build("""
use std::time::Duration;
fn main() {
    let mut io = liso::InputOutput::new();
    io.println("ready");
    let r = io.read_timeout(Duration::from_secs(3));
    drop(io);
    if let Some(liso::Response::Input(x)) = r { println!("got {}", x.escape_unicode()); }
}
""")
r = Run(exe)
r.wait_for(lambda s: "ready" in s.text())
r.keys("ae\u0301b\x01\x1b[C\x1b[3~\r")
r.exit()
t = r.screen.text()
done(any(x == "got \\u{61}\\u{62}" for x in t), repr(t) + r.errors())
'''
