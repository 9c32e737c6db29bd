ID="P20-bounded-queue"; PROP="P20"
NEEDS="a terminal that takes no data for a while, and more than 1024 output calls meanwhile"
BREAKS="at most 1024 requests can be queued, so the calling threads wait for the terminal when it is slow"
EDITS=[("src/lib.rs","""    sync::mpsc as std_mpsc,
""",""),("src/lib.rs","""impl Output {
    fn send(""","""/// The channels we use. A memory limit for the requests in flight.
mod std_mpsc {
    pub use std::sync::mpsc::{
        sync_channel, Receiver, RecvError, RecvTimeoutError, SendError, SyncSender,
        SyncSender as Sender, TryRecvError,
    };
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        sync_channel(1024)
    }
}

impl Output {
    fn send(""")]
DEMO=r'''
exe = build("""
use std::time::{Duration, Instant};
fn main() {
    let io = liso::InputOutput::new();
    io.println("ready");
    std::thread::sleep(Duration::from_millis(300));
    let start = Instant::now();
    for i in 0..20000 { io.println(format!("line {}", i)); }
    let t = start.elapsed();
    std::fs::write(std::env::args().nth(1).unwrap(), format!("{}", t.as_millis())).unwrap();
    std::process::exit(0);
}
""")
import pty, time, fcntl, struct, termios
f = os.path.join(TMP, "took")
m, s = pty.openpty()
p = subprocess.Popen([exe, f], stdin=s, stdout=s, stderr=subprocess.DEVNULL, env=dict(os.environ, TERM="xterm"))
# (nobody reads what comes from the program)
for i in range(50):
    time.sleep(0.1)
    if os.path.exists(f) and open(f).read(): break
ok = os.path.exists(f) and open(f).read() != ""
p.kill(); p.wait()
done(ok, "the calls did not return")
'''
