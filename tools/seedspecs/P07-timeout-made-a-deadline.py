ID="P07-timeout-made-a-deadline"; PROP="P07"
NEEDS="a read_timeout with a timeout so long that it doesn't end within the range of Instant, such as Duration::MAX"
BREAKS="read_timeout with the longest timeouts panics"
EDITS=[("src/lib.rs","""            let timeout = tokio::time::timeout(timeout, self.rx.recv());
""","""            let timeout = tokio::time::timeout_at(
                (Instant::now() + timeout).into(),
                self.rx.recv(),
            );
""")]
DEMO=r'''
exe = build("""
use std::time::Duration;
fn main() {
    let mut io = liso::InputOutput::new();
    io.send_custom(5u32);
    let got = match io.read_timeout(Duration::MAX) {
        Some(liso::Response::Custom(x)) => *x.downcast::<u32>().unwrap(),
        _ => 0,
    };
    drop(io);
    println!("got={}", got);
}
""")
r = Run(exe)
r.exit()
done(any("got=5" in t for t in r.screen.text()), repr(r.screen.text()) + r.errors())
'''
