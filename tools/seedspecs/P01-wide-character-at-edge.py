ID="P01-wide-character-at-edge"; PROP="P01"
NEEDS="an output line with a double-width character that falls on the last column of the terminal"
BREAKS="an output line is broken only when a row is full, so a double-width character with just one column left for it is written over the edge"
EDITS=[("src/worker.rs","""                if (char_width > 0 && cur_column + char_width > term_width)
""","""                if (char_width > 0 && cur_column >= term_width)
""")]
DEMO=r'''
exe = build("""
fn main() {
    let io = liso::InputOutput::new();
    io.println("abcdefghi\u6f22\u5b57xyz");
    std::thread::sleep(std::time::Duration::from_millis(300));
    drop(io);
}
""")
r = Run(exe, w=10)
r.exit()
t = r.screen.text()
done(t == ["abcdefghi", "\u6f22\u5b57xyz"], repr(t) + r.errors())
'''
