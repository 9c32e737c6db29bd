ID="P12-limit-removes-one"; PROP="P12"
NEEDS="a history that holds more lines than its limit (one that was read from a file, or whose limit was lowered)"
BREAKS="when a line is added, at most one of the lines over the limit is removed, so the history stays too long"
EDITS=[("src/history.rs","""                self.lines.splice(0..(self.lines.len() - limit), None);
""","""                self.lines.remove(0);
""")]
DEMO=r'''
exe = build("""
fn main() {
    let mut h = liso::History::new();
    h.set_limit(None);
    for i in 0..20 { h.add_line(i.to_string()).unwrap(); }
    h.set_limit(std::num::NonZeroUsize::new(5));
    h.add_line("new".to_string()).unwrap();
    println!("{}", h.get_lines().join(","));
}
""")
p = subprocess.run([exe], stdout=subprocess.PIPE)
done(p.stdout.decode().strip() == "16,17,18,19,new", p.stdout.decode())
'''
