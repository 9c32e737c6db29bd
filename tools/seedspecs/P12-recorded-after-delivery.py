ID="P12-recorded-after-delivery"; PROP="P12"
NEEDS="the thread that reads the response looks at the history before the output thread has recorded the line"
BREAKS="the Input response is sent before the line is added to the history, so a reader may find the history without the line it was just given"
EDITS=[("src/worker.rs","""            self.history_original_line = None;
            let mut lock = self.history.write().unwrap();
            if let Err(e)""","""            self.history_original_line = None;
            tx.send(Response::Input(input.clone()))?;
            let mut lock = self.history.write().unwrap();
            if let Err(e)"""),
("src/worker.rs","""        tx.send(Response::Input(input))?;
        Ok(())
    }
    fn handle_finish(""","""        #[cfg(not(feature = "history"))]
        tx.send(Response::Input(input))?;
        Ok(())
    }
    fn handle_finish(""")]
DEMO=r'''
exe = build("""
use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
fn main() {
    let mut io = liso::InputOutput::new();
    let _ = Arc::new(AtomicBool::new(false)).load(Ordering::SeqCst);
    let mut h = liso::History::new();
    h.set_limit(None);
    io.swap_history(h);
    let mut n = 0;
    let mut bad = 0;
    loop {
        // poll, so as to look as soon as possible
        match io.try_read() {
            Some(liso::Response::Input(x)) => {
                if x == "end" { break; }
                n += 1;
                let h = io.read_history();
                // (a later line may be there already)
                if !h.get_lines().iter().rev().take(50).any(|l| *l == x) { bad += 1; }
            }
            Some(liso::Response::Dead) => break,
            _ => std::hint::spin_loop(),
        }
    }
    drop(io);
    println!("n={} bad={}", n, bad);
}
""")
r = Run(exe)
r.quiet()
for i in range(400):
    r.keys("line%d\r" % i)
    r.pump(0.003)
r.keys("end\r")
r.exit()
t = [l for l in r.screen.text(True) if "n=400" in l]
done(any("bad=0" in l for l in t), repr(t) + r.errors())
'''
