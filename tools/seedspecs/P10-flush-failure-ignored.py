ID="P10-flush-failure-ignored"; PROP="P10"
NEEDS="the terminal failing while only the live area changes (no output lines), so that nothing but the flush ever notices"
BREAKS="an error in flushing the live area to the terminal is ignored, so Liso goes on with a terminal that is gone and its reader never gets Dead"
EDITS=[("src/worker.rs","""            term.show_cursor()?;
        }
        term.flush()?;
        Ok(())
""","""            term.show_cursor()?;
        }
        // (whatever couldn't be written is written the next time)
        let _ = term.flush();
        Ok(())
""")]
DEMO=r'''
exe = build("""
use liso::Response;
use std::time::{Duration, Instant};
fn main() {
    let mut io = liso::InputOutput::new();
    io.prompt("> ", true, false);
    std::thread::sleep(Duration::from_millis(300));
    // the terminal goes away for output, while input stays open
    use std::os::fd::AsRawFd;
    extern "C" { fn dup2(a: i32, b: i32) -> i32; }
    let full = std::fs::File::options().write(true).open("/dev/full").unwrap();
    unsafe { assert!(dup2(full.as_raw_fd(), 1) == 1); }
    io.prompt("other> ", true, false);
    let end = Instant::now() + Duration::from_secs(3);
    let mut dead = false;
    while Instant::now() < end {
        if let Some(Response::Dead) = io.read_timeout(Duration::from_millis(100)) { dead = true; break; }
    }
    eprintln!("dead {}", dead);
    std::process::exit(0);
}
""")
r = Run(exe)
r.exit(15)
done("dead true" in r.errors(), r.errors())
'''
