ID="P22-message-in-raw-mode"; PROP="P22"
NEEDS="a panic in any thread while Liso has the terminal"
BREAKS="the panic message is written before raw mode is left, so its lines don't start at the left edge"
EDITS=[("src/term/cross.rs","""            let _ = terminal::disable_raw_mode();
            default_hook(info)
""","""            default_hook(info);
            let _ = terminal::disable_raw_mode();
""")]
DEMO=r'''
exe = build("""
fn main() {
    let io = liso::InputOutput::new();
    io.println("one");
    std::thread::sleep(std::time::Duration::from_millis(300));
    let _ = std::thread::spawn(|| panic!("first\\nsecond\\nthird")).join();
    drop(io);
}
""")
r = Run(exe, err_tty=True)
r.exit()
t = r.screen.text()
done("second" in t and "third" in t, repr(t))
'''
