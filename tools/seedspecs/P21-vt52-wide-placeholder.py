ID="P21-vt52-wide-placeholder"; PROP="P21"
NEEDS="inverse text that directly follows other inverse text on a VT52, with the attributes reset in between"
BREAKS="x"
EDITS=[("src/term/vt52.rs","""        write!(self.stdout, "\\x1BK")?;""","""        if self.cur_style.contains(Style::INVERSE) {
            return Ok(());
        }
        write!(self.stdout, "\\x1BK")?;""")]
EDITS=[("src/term/vt52.rs","""                pos += 1;
                start = pos;
            } else {""","""                pos += text[pos..].chars().next().map_or(1, char::len_utf8);
                start = pos;
            } else {"""),("src/term/vt52.rs","""                if bytes[pos] >= 0xC0 {
                    let ch = text[pos..].chars().nth(0).unwrap();
                    let width = UnicodeWidthChar::width(ch).unwrap_or(0);
                    for _ in 0..width {
                        self.stdout.write_all(b"\\x7F")?;
                    }
                }
""","""                let ch = text[pos..].chars().next().unwrap();
                if UnicodeWidthChar::width(ch) != Some(0) {
                    self.stdout.write_all(b"\\x7F")?;
                }
""")]
NEEDS="a printed line with characters two columns wide, on a VT52"
BREAKS="print writes one placeholder for a character two columns wide, so the columns Liso counts and those on the screen differ (wrapping and filling go wrong)"
DEMO=r'''
exe = build("""
fn main() {
    let mut io = liso::InputOutput::new();
    io.println("a\u65e5\u672cb\u00e9c");
    io.send_custom(());
    io.read_blocking();
    drop(io);
}
""")
r = Run(exe, term="vt52")
r.exit()
done(b"a\x7f\x7f\x7f\x7fb\x7fc" in r.raw, repr(r.raw))
'''
