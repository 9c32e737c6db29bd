ID="P07-slices-give-up-early"; PROP="P07"
NEEDS="a read_timeout with a timeout of more than 50 ms during which nothing arrives"
BREAKS="read_timeout waits in slices of 50 ms and gives up as soon as less than one slice is left, up to 50 ms early"
EDITS=[("src/lib.rs","""            let timeout = tokio::time::timeout(timeout, self.rx.recv());
            match timeout.await {
                Ok(None) => {
                    self.report_death();
                    Some(Response::Dead)
                }
                Ok(Some(x)) => Some(x),
                Err(_) => None,
            }
""","""            // Don't let the runtime sleep for too long at once.
            let slice = timeout.min(Duration::from_millis(50));
            let start = Instant::now();
            loop {
                match tokio::time::timeout(slice, self.rx.recv()).await {
                    Ok(None) => {
                        self.report_death();
                        return Some(Response::Dead);
                    }
                    Ok(Some(x)) => return Some(x),
                    Err(_) if timeout.saturating_sub(start.elapsed()) < slice => {
                        return None
                    }
                    Err(_) => (),
                }
            }
""")]
DEMO=r'''
exe = build("""
use std::time::{Duration, Instant};
fn main() {
    let mut io = liso::InputOutput::new();
    let mut early = 0;
    for ms in [10, 50, 90, 140, 195, 249] {
        let t = Duration::from_millis(ms);
        let a = Instant::now();
        if io.read_timeout(t).is_none() && a.elapsed() < t { early += 1; }
    }
    drop(io);
    println!("early {}", early);
}
""")
r = Run(exe)
r.exit()
t = r.screen.text()
done("early 0" in t, repr(t) + r.errors())
'''
