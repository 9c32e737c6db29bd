ID="P15-insertion-counts-chars"; PROP="P15"
NEEDS="a completor that inserts text with characters of more than one byte, followed by more typing"
BREAKS="after text was inserted by the completor, the cursor moves by the number of its characters instead of its bytes, so it ends up in the middle of the text"
EDITS=[("src/worker.rs","""                            self.input_cursor += text.len();
""","""                            self.input_cursor += text.chars().count();
""")]
DEMO=r'''
exe = build("""
use std::{num::NonZeroU32, time::Duration};
struct C;
impl liso::Completor for C {
    fn complete(&mut self, _: &liso::Output, _: &str, _: usize, _: NonZeroU32) -> Option<liso::Completion> {
        Some(liso::Completion::InsertAtCursor { text: "\\u{e9}\\u{e9}".to_string() })
    }
}
fn main() {
    let mut io = liso::InputOutput::new();
    io.set_completor(Some(Box::new(C)));
    io.println("ready");
    let r = io.read_timeout(Duration::from_secs(3));
    drop(io);
    if let Some(liso::Response::Input(x)) = r { println!("got {}", x.escape_unicode()); }
}
""")
r = Run(exe)
r.wait_for(lambda s: "ready" in s.text())
r.keys("a\tb\r")
r.exit()
t = r.screen.text()
done(any(x == "got " + "".join("\\u{%x}" % ord(c) for c in "a\u00e9\u00e9b") for x in t), repr(t) + r.errors())
'''
