ID="P17-failed-attempt-frees-slot"; PROP="P17"
NEEDS="the crate without its global feature, one failed attempt to create a second instance, then another attempt"
BREAKS="an attempt to create a second instance fails, but lets the next attempt succeed although the first instance is still alive"
EDITS=[("src/lib.rs","""        match LISO_IS_ACTIVE.compare_exchange(
            false,
            true,
            Ordering::Acquire,
            Ordering::Relaxed,
        ) {
            Ok(_) => we_are_alone = true,
            Err(_) => we_are_alone = false,
        }
""","""        {
            we_are_alone = !LISO_IS_ACTIVE.fetch_xor(true, Ordering::AcqRel);
        }
""")]
DEMO=r'''
exe = build("""
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let io = liso::InputOutput::new();
    let a = std::panic::catch_unwind(|| { liso::InputOutput::new(); }).is_ok();
    let b = std::panic::catch_unwind(|| { liso::InputOutput::new(); }).is_ok();
    eprintln!("{} {}", a, b);
    drop(io);
}
""", default=False)
p = subprocess.run([exe], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
done(b"false false" in p.stderr, p.stderr.decode())
'''
