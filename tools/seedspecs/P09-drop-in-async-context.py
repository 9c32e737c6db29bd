ID="P09-drop-in-async-context"; PROP="P09"
NEEDS="dropping the InputOutput (or calling blocking_die) within an asynchronous task"
BREAKS="shutting down waits for the Dead response with a call that panics when the calling thread is driving asynchronous tasks"
EDITS=[("src/lib.rs","""            match self.try_read() {
                None => std::thread::yield_now(),
                Some(Response::Dead) => break,
                _ => (),
            }
        }
    }
""","""            match self.read_blocking() {
                Response::Dead => break,
                _ => (),
            }
        }
    }
""")]
DEMO=r'''
exe = build("""
fn main() {
    let io = liso::InputOutput::new();
    io.println("one");
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async move {
        let out = io.clone_output();
        out.println("two");
        drop(io);
    });
    let io = liso::InputOutput::new();
    io.println("three");
    drop(io);
    println!("end");
}
""", deps='tokio = { version = "1", default-features = false, features = ["rt", "sync", "time"] }')
r = Run(exe)
code = r.exit(10)
t = r.screen.text()
done(code == 0 and t == ["one", "two", "three", "end"] and r.termios_restored(), repr((code, t)) + r.errors())
'''
