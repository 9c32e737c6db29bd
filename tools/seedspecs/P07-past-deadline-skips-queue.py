ID="P07-past-deadline-skips-queue"; PROP="P07"
NEEDS="read_deadline with a deadline that has already passed while a response is waiting"
BREAKS="read_deadline returns None without looking at the responses that are already available"
EDITS=[("src/lib.rs","""            let timeout = tokio::time::timeout_at(
                tokio::time::Instant::from_std(deadline),
                self.rx.recv(),
            );
""","""            let timeout = tokio::time::timeout(
                deadline.checked_duration_since(Instant::now())?,
                self.rx.recv(),
            );
""")]
DEMO=r'''
exe = build("""
use std::time::{Duration, Instant};
fn main() {
    let mut io = liso::InputOutput::new();
    let past = Instant::now();
    io.send_custom(5u32);
    std::thread::sleep(Duration::from_millis(500));
    let got = match io.read_deadline(past) {
        Some(liso::Response::Custom(x)) => *x.downcast::<u32>().unwrap(),
        _ => 0,
    };
    drop(io);
    println!("got={}", got);
}
""")
r = Run(exe)
r.exit()
done(any("got=5" in t for t in r.screen.text()), repr(r.screen.text()) + r.errors())
'''
