ID="P11-short-write"; PROP="P11"
NEEDS="a write to standard output that is interrupted or accepts only a part of a long line"
BREAKS="in pipe mode an output line is handed to standard output by a single write call, so a part of it is lost if that writes less than everything"
EDITS=[("src/worker.rs","""            Request::Output(line) | Request::OutputWrapped(line) => {
                writeln!(std::io::stdout(), "{}", line.text)?;
            }
""","""            Request::Output(mut line) | Request::OutputWrapped(mut line) => {
                // one call, so that nothing can get in between
                line.text.push('\\n');
                let _ = std::io::stdout().write(line.text.as_bytes())?;
            }
""")]
DEMO=r'''
import ctypes
exe = build("""
extern "C" fn h(_: i32) {}
extern "C" { fn sigaction(n: i32, a: *const [u64; 19], o: *mut [u64; 19]) -> i32; }
fn main() {
    // a handler without SA_RESTART
    let mut a = [0u64; 19];
    a[0] = h as usize as u64;
    unsafe { sigaction(10, &a, std::ptr::null_mut()); }
    let io = liso::InputOutput::new();
    io.println("x".repeat(300000));
    io.println("end");
    drop(io);
}
""")
p = subprocess.Popen([exe], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE)
time.sleep(1)                        # now the pipe is full
libc = ctypes.CDLL(None)
for t in os.listdir("/proc/%d/task" % p.pid):
    if open("/proc/%d/task/%s/comm" % (p.pid, t)).read().startswith("Liso output"):
        libc.syscall(234, p.pid, int(t), 10)   # tgkill
time.sleep(0.3)
out = p.communicate()[0].split(b"\n")
done([len(x) for x in out] == [300000, 3, 0], repr([len(x) for x in out]))
'''
