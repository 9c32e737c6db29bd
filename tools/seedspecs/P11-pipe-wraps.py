ID="P11-pipe-wraps"; PROP="P11"
NEEDS="pipe mode, and a line longer than 80 columns given to wrapln"
BREAKS="in pipe mode, wrapln wraps its line to 80 columns, so one line of output becomes several"
EDITS=[("src/worker.rs","""            Request::Output(line) | Request::OutputWrapped(line) => {
                writeln!(std::io::stdout(), "{}", line.text)?;
            }
""","""            Request::Output(line) => {
                writeln!(std::io::stdout(), "{}", line.text)?;
            }
            #[cfg(feature = "wrap")]
            Request::OutputWrapped(mut line) => {
                line.wrap_to_width(80);
                writeln!(std::io::stdout(), "{}", line.text)?;
            }
""")]
DEMO=r'''
exe = build("""
fn main() {
    let io = liso::InputOutput::new();
    io.wrapln("word ".repeat(30) + "end");
    drop(io);
}
""")
p = subprocess.run([exe], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE)
done(p.stdout == b"word " * 30 + b"end\n", repr(p.stdout))
'''
