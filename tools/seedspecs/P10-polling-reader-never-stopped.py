ID="P10-polling-reader-never-stopped"; PROP="P10"
NEEDS="a program that polls with try_read and goes on after it was told that Liso is dead"
BREAKS="the Dead responses given by try_read aren't counted, so that a program that ignores them loops forever instead of being stopped by a panic"
EDITS=[("src/lib.rs","""            Err(TryRecvError::Disconnected) => {
                self.report_death();
                Some(Response::Dead)
            }
""","""            Err(TryRecvError::Disconnected) => Some(Response::Dead),
""")]
DEMO=r'''
exe = build("""
fn main() {
    let mut io = liso::InputOutput::new();
    let ms = std::time::Duration::from_millis(1);
    let end = std::time::Instant::now() + 3000 * ms;
    // (the terminal is gone before this starts)
    while std::time::Instant::now() < end {
        for _ in 0..1000 { io.try_read(); }
        std::thread::sleep(ms);
    }
    std::process::exit(0);
}
""")
import pty
m, s = pty.openpty()
p = subprocess.Popen([exe], stdin=s, stdout=s, stderr=subprocess.PIPE, env=dict(os.environ, TERM="xterm"))
os.close(s)
import time; time.sleep(0.3)
os.close(m)
try: err = p.communicate(timeout=20)[1]
except subprocess.TimeoutExpired: p.kill(); err = b"hangs"
done(p.returncode == 101 and b"Dead" in err, repr((p.returncode, err)))
'''
