ID="P05-modified-key-typed"; PROP="P05"
NEEDS="a key whose escape sequence ends neither with a letter nor with a tilde (such as Control with Delete in rxvt, which sends ESC [ 3 ^)"
BREAKS="control sequences are only ended by a letter or a tilde, so after one that ends with something else, what is typed up to the next letter is lost"
EDITS=[("src/term/cross.rs","""                            if buf[i] < 0x20 || buf[i] >= 0x40 {
""","""                            if buf[i] < 0x20
                                || buf[i].is_ascii_alphabetic()
                                || buf[i] == b'~'
                            {
""")]
DEMO=r'''
exe = build("""
use std::time::Duration;
fn main() {
    let mut io = liso::InputOutput::new();
    io.println("ready");
    let r = io.read_timeout(Duration::from_secs(3));
    drop(io);
    if let Some(liso::Response::Input(x)) = r { println!("got {}", x); }
}
""")
r = Run(exe)
r.wait_for(lambda s: "ready" in s.text())
r.keys("a\x1b[3^12b\r")
r.exit()
t = r.screen.text()
done("got a12b" in t, repr(t) + r.errors())
'''
