ID="P12-bump-before-swap"; PROP="P12"
NEEDS="swapping the history while a recalled line is shown, with Liso's thread handling the notification before the swap takes place, and then a history key"
BREAKS="the worker is told that the history was replaced before it is, so it may look its place up in the old history and then use that index with the new one"
EDITS=[("src/lib.rs","""        let mut lock = self.history.write().unwrap();
        std::mem::swap(&mut history, &mut *lock);
        drop(lock);
        let _ = self.tx.send(Request::BumpHistory);
        history
""","""        let _ = self.tx.send(Request::BumpHistory);
        let mut lock = self.history.write().unwrap();
        std::mem::swap(&mut history, &mut *lock);
        drop(lock);
        history
""")]
DEMO=r'''
exe = build("""
use liso::{History, Response};
extern "C" { fn setpriority(which: i32, who: u32, prio: i32) -> i32; }
fn hist(x: &[&str]) -> History {
    let mut h = History::new();
    for l in x { h.add_line(l.to_string()).unwrap(); }
    h
}
fn main() {
    let mut io = liso::InputOutput::new();
    // let Liso's thread run as soon as it has something to do
    std::thread::sleep(std::time::Duration::from_millis(100));
    unsafe { setpriority(0, 0, 19); }
    io.prompt("> ", true, false);
    let _ = io.swap_history(hist(&["a", "b", "place"]));
    let mut n = 0;
    loop {
        match io.read_blocking() {
            Response::Input(x) => {
                let _ = io.swap_history(hist(&["a", "b", "place"]));
                io.println(format!("got{}[{}]", n, x));
                n += 1;
            }
            Response::Info => {
                // the recalled line is the first one of the new history
                let _ = io.swap_history(hist(&["place", "next", "last"]));
                io.println(format!("swapped{}", n));
            }
            Response::Dead | Response::Quit => break,
            _ => (),
        }
    }
}
""")
os.sched_setaffinity(0, [min(os.sched_getaffinity(0))])
r = Run(exe)
if not r.wait_for(lambda s: s.text() == [">"]): done(False, "no prompt")
r.quiet()
bad = None
for i in range(200):
    r.keys("\x10")
    if not r.wait_for(lambda s: s.text()[-1] == "> place", 5): done(False, "recall: %r" % r.screen.text())
    r.keys("\x14")
    if not r.wait_for(lambda s: "swapped%d" % i in s.text(), 5): done(False, "swap: %r" % r.screen.text())
    r.keys("\x0e\r")
    if not r.wait_for(lambda s: any(t.startswith("got%d[" % i) for t in s.text()), 5): done(False, "enter: %r" % r.screen.text() + r.errors())
    if "got%d[next]" % i not in r.screen.text():
        done(False, "%d: %r" % (i, r.screen.text()))
    r.wait_for(lambda s: s.text()[-1] == ">", 5)
done(True)
'''
