ID="P15-tab-count-survives-arrows"; PROP="P15"
NEEDS="Tab, then a key that arrives as an escape sequence (an arrow), then Tab again"
BREAKS="the number of consecutive Tab presses is not reset by keys such as the arrows, so the completor is told that the second press follows the first directly"
EDITS=[("src/worker.rs","""                    #[cfg(feature = "completion")]
                    if k.code == KeyCode::Tab {
                        self.consecutive_completion_presses = self
                            .consecutive_completion_presses
                            .saturating_add(1);
                    } else {
                        self.consecutive_completion_presses = 0;
                    }
""","""                    #[cfg(feature = "completion")]
                    match k.code {
                        KeyCode::Tab => {
                            self.consecutive_completion_presses = self
                                .consecutive_completion_presses
                                .saturating_add(1);
                        }
                        // anything else that leaves the input alone doesn't
                        // interrupt the completion
                        KeyCode::Char(_)
                        | KeyCode::Enter
                        | KeyCode::Backspace
                        | KeyCode::Delete => {
                            self.consecutive_completion_presses = 0;
                        }
                        _ => (),
                    }
""")]
DEMO=r'''
exe = build("""
use std::num::NonZeroU32;
struct C;
impl liso::Completor for C {
    fn complete(&mut self, output: &liso::Output, input: &str, cursor: usize, n: NonZeroU32) -> Option<liso::Completion> {
        output.println(format!("tab[{}] {} {}", input, cursor, n));
        None
    }
}
fn main() {
    let mut io = liso::InputOutput::new();
    io.set_completor(Some(Box::new(C)));
    loop {
        match io.read_blocking() {
            liso::Response::Quit | liso::Response::Dead => break,
            _ => (),
        }
    }
}
""")
r = Run(exe)
r.quiet()
r.keys("ab"); r.quiet(0.2)
r.keys("\t"); r.quiet(0.2)
r.keys("\x1b[D"); r.quiet(0.3)
r.keys("\t"); r.quiet(0.3)
t = r.screen.text()
done("tab[ab] 2 1" in t and "tab[ab] 1 1" in t, repr(t) + r.errors())
'''
