ID="P18-long-line-ends-capture"; PROP="P18"
NEEDS="a line of more than 4096 bytes written to the captured stderr"
BREAKS="the buffer for a captured line doesn't grow over 4096 bytes, so that a read into the full buffer is taken for the end of stderr and the capture ends"
EDITS=[("src/stderr_capture.rs","""            if buf_pos == buf.len() {
""","""            if buf_pos == buf.len() && buf.len() < 4096 {
""")]
DEMO=r'''
exe = build("""
use std::io::Write;
fn main() {
    let io = liso::InputOutput::new();
    let ms = std::time::Duration::from_millis(300);
    std::thread::sleep(ms);
    let mut e = std::io::stderr();
    e.write_all("x".repeat(5000).as_bytes()).unwrap();
    e.write_all(b"\\n").unwrap();
    std::thread::sleep(ms);
    e.write_all(b"after\\n").unwrap();
    std::thread::sleep(ms);
    drop(io);
}
""", ["capture-stderr"])
r = Run(exe, err_tty=True)
r.exit()
t = r.screen.text()
n = sum(x.count("x") for x in t)
done("E: after" in t, repr(t[-5:]))
'''
