ID="P18-split-line-loses-start"; PROP="P18"
NEEDS="a line written to stderr in several writes that are read separately"
BREAKS="of a captured line that arrives in several parts, only the part that came with the line end is shown"
EDITS=[("src/stderr_capture.rs","""                            last_newline_pos.map(|x| x + 1).unwrap_or(0);
""","""                            last_newline_pos.map(|x| x + 1).unwrap_or(buf_pos);
""")]
DEMO=r'''
exe = build("""
use std::io::Write;
fn main() {
    let io = liso::InputOutput::new();
    let ms = std::time::Duration::from_millis(200);
    std::thread::sleep(ms);
    let mut e = std::io::stderr();
    e.write_all(b"first ").unwrap();
    std::thread::sleep(ms);
    e.write_all(b"second\\nthird\\n").unwrap();
    std::thread::sleep(ms);
    drop(io);
}
""", ["capture-stderr"])
r = Run(exe, err_tty=True)
r.exit()
t = r.screen.text()
done("E: first second" in t and "E: third" in t, repr(t))
'''
