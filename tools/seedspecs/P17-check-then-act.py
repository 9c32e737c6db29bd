ID="P17-check-then-act"; PROP="P17"
NEEDS="two threads that create an InputOutput at the same moment"
BREAKS="the lock on the global handle is not held from the check whether there is an instance until the new one is registered, so that two threads can both create one"
EDITS=[("src/lib.rs","""        #[cfg(feature = "global")]
        let mut global_lock = LISO_OUTPUT_TX.lock();
        #[cfg(feature = "global")]
        {
            we_are_alone = global_lock.is_none();
        }
""","""        #[cfg(feature = "global")]
        {
            we_are_alone = LISO_OUTPUT_TX.lock().is_none();
        }
"""),("src/lib.rs","""            *global_lock = Some(request_tx.clone());
""","""            *LISO_OUTPUT_TX.lock() = Some(request_tx.clone());
""")]
DEMO=r'''
exe = build("""
use std::sync::{Arc, Barrier};
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut twice = 0;
    for _ in 0..100 {
        let b = Arc::new(Barrier::new(8));
        let done = Arc::new(Barrier::new(8));
        let t: Vec<_> = (0..8).map(|_| {
            let (b, done) = (b.clone(), done.clone());
            std::thread::spawn(move || {
                b.wait();
                let io = std::panic::catch_unwind(|| liso::InputOutput::new());
                done.wait();
                io.is_ok()
            })
        }).collect();
        if t.into_iter().filter(|_| true).map(|x| x.join().unwrap()).filter(|x| *x).count() != 1 { twice += 1; }
    }
    eprintln!("twice {}", twice);
}
""")
p = subprocess.run([exe], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
done(b"twice 0" in p.stderr, p.stderr.decode())
'''
