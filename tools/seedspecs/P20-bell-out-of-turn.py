ID="P20-bell-out-of-turn"; PROP="P20"
NEEDS="ringing the bell while the terminal accepts no data and output is waiting"
BREAKS="bell writes to the terminal in the caller's thread, so it waits for a stalled terminal"
EDITS=[("src/lib.rs","""        self.send(Request::Bell)
""","""        // Ring it right now, not after all the waiting output.
        use std::io::Write;
        let mut stdout = std::io::stdout();
        if stdout.write_all(b"\\x07").and_then(|_| stdout.flush()).is_err() {
            self.send(Request::Bell)
        }
""")]
DEMO=r'''
exe = build("""
use std::time::{Duration, Instant};
fn main() {
    let mut io = liso::InputOutput::new();
    io.prompt("> ", true, false);
    loop {
        match io.read_blocking() {
            liso::Response::Info => {
                for i in 0..20000 { io.println(format!("line {}", i)); }
                std::thread::sleep(Duration::from_millis(500));
                let t = Instant::now();
                io.bell();
                let t = t.elapsed();
                eprintln!("bell took {} ms", t.as_millis());
                break;
            }
            liso::Response::Dead => break,
            _ => (),
        }
    }
    drop(io);
}
""")
r = Run(exe)
if not r.wait_for(lambda s: s.text() == [">"]): done(False, "no prompt")
r.quiet()
r.keys("\x14")
time.sleep(2.5)                # we don't read
r.exit(20)
e = r.errors()
done("bell took" in e and int(e.split("bell took ")[1].split()[0]) < 1000, e)
'''
