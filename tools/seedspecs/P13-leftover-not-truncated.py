ID="P13-leftover-not-truncated"; PROP="P13"
NEEDS="a crash (or an error) in the middle of a save that leaves a longer unfinished file behind, then a shorter history being saved"
BREAKS="the file that is built during a save isn't truncated, so the rest of an unfinished earlier save ends up in the history"
EDITS=[("src/history.rs","""        let mut f = BufWriter::new(File::create(path)?);
""","""        let mut f = BufWriter::new(
            File::options().write(true).create(true).open(path)?,
        );
""")]
DEMO=r'''
exe = build("""
fn main() {
    let path = std::env::args().nth(1).unwrap();
    let path = std::path::Path::new(&path);
    let mut h = liso::History::new();
    for i in 0..50 { h.add_line(format!("a rather long line of history {}", i)).unwrap(); }
    h.write_history_to(path.join("hist^")).unwrap(); // (what a process that dies while saving leaves)
    // a later save
    let mut h = liso::History::from_file(path.join("hist")).unwrap();
    h.set_autosave_interval(std::num::NonZeroUsize::new(1));
    h.add_line("short".to_string()).unwrap();
    drop(h);
    let h = liso::History::from_file(path.join("hist")).unwrap();
    println!("{:?}", h.get_lines());
}
""")
d = os.path.join(TMP, "h"); os.mkdir(d)
p = subprocess.run([exe, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
done(p.stdout.decode().strip() == '["short"]', p.stdout.decode())
'''
