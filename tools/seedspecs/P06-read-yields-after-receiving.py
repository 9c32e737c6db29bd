ID="P06-read-yields-after-receiving"; PROP="P06"
NEEDS="an asynchronous read that is cancelled (by a timeout or select) right after it took a response from the queue"
BREAKS="read_async holds a response that it has taken from the queue over another await, so cancelling the read there loses the response"
EDITS=[("src/lib.rs","""        match self.rx.recv().await {
            None => {
                self.report_death();
                Response::Dead
            }
            Some(x) => x,
        }
    }
    #[deprecated = "Use `read_async` instead."]""","""        let response = self.rx.recv().await;
        // Let other tasks run, even if there are many responses waiting.
        let mut yielded = false;
        std::future::poll_fn(|cx| {
            if yielded {
                return std::task::Poll::Ready(());
            }
            yielded = true;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        })
        .await;
        match response {
            None => {
                self.report_death();
                Response::Dead
            }
            Some(x) => x,
        }
    }
    #[deprecated = "Use `read_async` instead."]""")]
DEMO=r'''
exe = build("""
use std::future::Future;
use std::task::*;
struct W;
impl Wake for W { fn wake(self: std::sync::Arc<Self>) {} }
fn main() {
    let mut io = liso::InputOutput::new();
    for i in 0..5u32 { io.send_custom(i); }
    std::thread::sleep(std::time::Duration::from_millis(300));
    let waker = Waker::from(std::sync::Arc::new(W));
    let mut cx = Context::from_waker(&waker);
    let mut got: Vec<u32> = vec![];
    // reads that are given up when they don't succeed at once
    for _ in 0..20 {
        let fut = io.read_async();
        let mut fut = std::pin::pin!(fut);
        if let Poll::Ready(liso::Response::Custom(x)) = fut.as_mut().poll(&mut cx) { got.push(*x.downcast::<u32>().unwrap()); }
    }
    while let Some(liso::Response::Custom(x)) = io.try_read() { got.push(*x.downcast::<u32>().unwrap()); }
    io.println(format!("got {:?}", got));
    drop(io);
}
""")
r = Run(exe)
r.exit()
t = r.screen.text()
done("got [0, 1, 2, 3, 4]" in t, repr(t) + r.errors())
'''
